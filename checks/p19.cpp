// P19: environments of threads: one each, with frames, references and exceptions of its own
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    struct Thing : Tracked<> {};
    struct Ref { std::weak_ptr<Thing> obj; jobject h; };
    struct Att { // A thread as seen by one VM
        JNIEnv* env = nullptr;
        std::vector<std::vector<Ref>> frames;
        std::weak_ptr<Object> pending;
        bool throwing = false;
        std::string msg;
    };
    constexpr int T = 3;
    struct Gone { void* env; };

    struct Sides {
        std::unique_ptr<Peer> peer[T]; // none for the main thread
        void on(int t, const std::function<void()>& f) {
            if(!t) { f(); return; }
            if(!peer[t]) peer[t].reset(new Peer);
            peer[t]->run(f);
        }
    };
    // Kinds of VMs
    struct Machine {
        virtual ~Machine() {}
        virtual JavaVM* java() = 0;
        virtual VM* vm() = 0;
    };
    template<class V> struct PlainMachine : Machine {
        V v;
        JavaVM* java() override { return v.GetJavaVM(); }
        VM* vm() override { return &v; }
    };
    struct StrictVM : VM { StrictVM() : VM(false, true) {} };
    template<class V> struct FakeMachine : Machine {
        V v;
        JavaVM* java() override { return &v; }
        VM* vm() override { return VM::FromJavaVM(&v); }
    };
    Machine* make(int k) {
        switch(k) {
        case 0: return new PlainMachine<VM>;
        case 1: return new PlainMachine<StrictVM>;
        case 2: return new FakeMachine<FakeJni::Jvm>;
        default: return new FakeMachine<Baron::Jvm>;
        }
    }

    struct World {
        Sides sides;
        std::vector<std::unique_ptr<Machine>> vms;
        std::vector<std::vector<Att>> att; // vm, thread
        std::shared_ptr<Thing> shared;
        jobject global = nullptr;
        int next = 0;
        World(std::initializer_list<int> kinds) {
            for(int k : kinds) {
                vms.emplace_back(make(k));
                att.emplace_back(T);
                auto& a = att.back()[0];
                MC_CHECK(vms.back()->java()->GetEnv((void**)&a.env, JNI_VERSION_1_6) == JNI_OK && a.env, "environment", "none on the creating thread");
                a.frames.resize(1);
                E(a.env)->GetClass<Thing>("p/Thing");
            }
            shared = std::make_shared<Thing>();
            auto e = att[0][0].env;
            e->PushLocalFrame(0);
            global = e->NewGlobalRef(local(e, shared));
            e->PopLocalFrame(nullptr);
        }
        ~World() {
            for(int t = 1; t < T; ++t) if(sides.peer[t]) { sides.peer[t]->run([&] { for(auto&& v : vms) v->java()->DetachCurrentThread(); }); sides.peer[t].reset(); }
            vms.clear();
        }
        // On the thread itself
        void attach(int v, int t, int how) {
            auto& a = att[v][t];
            JNIEnv* env = nullptr;
            jint rc;
            auto j = vms[v]->java();
            switch(how) {
            case 0: rc = j->AttachCurrentThread(&env, nullptr); break;
            case 1: rc = j->AttachCurrentThreadAsDaemon(&env, nullptr); break;
            case 2: rc = j->GetEnv((void**)&env, JNI_VERSION_1_6); break;
            default: {
                JavaVMAttachArgs args = {JNI_VERSION_1_6, "thread", nullptr};
                rc = j->AttachCurrentThread(&env, &args);
            }
            }
            log("thread %d: %s VM %d -> %p", t, how == 0 ? "attach to" : how == 1 ? "attach as daemon to" : how == 2 ? "get the environment of" : "attach with arguments to", v, env);
            MC_CHECK(rc == JNI_OK && env, "attach", "failed with %d", rc);
            if(a.env) MC_CHECK(a.env == env, "environment", "of attached thread %d changed", t);
            else {
                for(auto&& x : att) for(auto&& y : x) MC_CHECK(y.env != env, "environment", "of thread %d is another one's", t);
                a = Att();
                a.env = env;
                a.frames.resize(1);
                MC_CHECK(!env->ExceptionCheck() && !env->ExceptionOccurred(), "exception", "pending in a new environment");
            }
        }
        bool detach(int v, int t) {
            auto& a = att[v][t];
            std::vector<std::weak_ptr<Thing>> refs;
            for(auto&& f : a.frames) for(auto&& r : f) refs.push_back(r.obj);
            auto pending = a.pending;
            log("thread %d: detach from VM %d", t, v);
            MC_CHECK(vms[v]->java()->DetachCurrentThread() == JNI_OK, "detach", "failed");
            for(auto&& r : refs) MC_CHECK(r.expired(), "released", "a local reference survives detaching");
            MC_CHECK(pending.expired(), "released", "the pending exception survives detaching");
            a = Att();
            return true;
        }
        void use(int v, int t, int op) {
            auto& a = att[v][t];
            auto env = a.env;
            switch(op) {
            case 0: {
                auto o = std::make_shared<Thing>();
                auto h = local(env, o);
                a.frames.back().push_back({o, h});
                log("thread %d: new reference", t);
                break;
            }
            case 1: env->PushLocalFrame(2); a.frames.emplace_back(); log("thread %d: push", t); break;
            case 2: {
                auto f = std::move(a.frames.back());
                a.frames.pop_back();
                env->PopLocalFrame(nullptr);
                for(auto&& r : f) MC_CHECK(r.obj.expired(), "released", "a reference survives its frame");
                log("thread %d: pop", t);
                break;
            }
            case 3: {
                auto th = std::make_shared<Throwable>();
                a.msg = "e" + std::to_string(next++);
                try { throw std::runtime_error(a.msg); } catch(...) { th->except = std::current_exception(); }
                env->PushLocalFrame(0);
                env->Throw((jthrowable)local(env, th));
                env->PopLocalFrame(nullptr);
                a.pending = th;
                a.throwing = true;
                log("thread %d: throw", t);
                break;
            }
            case 4: env->ExceptionClear(); MC_CHECK(a.pending.expired(), "released", "a cleared exception"); a.throwing = false; a.pending.reset(); log("thread %d: clear", t); break;
            case 5: {
                auto f = a.frames.back().back();
                a.frames.back().pop_back();
                env->DeleteLocalRef(f.h);
                MC_CHECK(f.obj.expired(), "released", "a deleted reference");
                log("thread %d: delete reference", t);
                break;
            }
            }
        }
        // On the thread itself: everything is as this thread left it
        void verify(int v, int t) {
            auto& a = att[v][t];
            if(!a.env) return;
            auto env = a.env;
            JNIEnv* now = nullptr;
            MC_CHECK(vms[v]->java()->GetEnv((void**)&now, JNI_VERSION_1_6) == JNI_OK && now == env, "environment", "of thread %d changed", t);
            JavaVM* back = nullptr;
            MC_CHECK(env->GetJavaVM(&back) == JNI_OK && VM::FromJavaVM(back) == vms[v]->vm(), "VM", "environment of thread %d leads to another VM", t);
            MC_CHECK(E(env)->GetVM() == vms[v]->vm(), "VM", "environment of thread %d leads to another VM", t);
            MC_CHECK(ENV::FromJNIEnv(env)->GetJNIEnv() == env, "environment", "of thread %d does not lead to itself", t);
            for(auto&& f : a.frames) for(auto&& r : f) {
                auto o = r.obj.lock();
                MC_CHECK(o, "lost", "a local reference of thread %d is gone", t);
                MC_CHECK(unwrap<Thing>(env, r.h) == o, "reference", "of thread %d denotes another object", t);
            }
            MC_CHECK((bool)env->ExceptionCheck() == a.throwing, "exception", "thread %d: %s, expected %s", t, a.throwing ? "none" : "pending", a.throwing ? "pending" : "none");
            if(a.throwing) {
                auto p = a.pending.lock();
                MC_CHECK(p, "exception", "of thread %d is gone", t);
                env->PushLocalFrame(0);
                auto th = env->ExceptionOccurred();
                MC_CHECK(unwrap<Throwable>(env, th).get() == p.get(), "exception", "of thread %d is another", t);
                env->PopLocalFrame(nullptr);
            }
            if(!v) MC_CHECK(unwrap<Thing>(env, global) == shared, "global", "on thread %d", t);
            mc::transition();
        }
        void verifyAll() {
            for(int t = 0; t < T; ++t) {
                bool any = false;
                for(auto&& v : att) any = any || v[t].env;
                if(any) sides.on(t, [&] { for(size_t v = 0; v < vms.size(); ++v) verify((int)v, t); });
            }
        }
        uint64_t hash() {
            uint64_t h = 3;
            for(auto&& v : att) for(auto&& a : v) {
                h = mc::mix(h, (bool)a.env + 2 * a.throwing);
                for(auto&& f : a.frames) h = mc::mix(h, f.size());
                h = mc::mix(h, 7);
            }
            return h;
        }
        std::vector<int> enabled(int v, int t, bool canDetach) {
            auto& a = att[v][t];
            std::vector<int> r = {0, 1, 2};
            if(!a.env) return r;
            if(canDetach) r.push_back(3);
            r.push_back(4);
            r.push_back(5);
            if(a.frames.size() > 1) r.push_back(6);
            r.push_back(7);
            if(a.throwing) r.push_back(8);
            if(!a.frames.back().empty()) r.push_back(9);
            return r;
        }
        void step(int v, int t, int op) {
            sides.on(t, [&] {
                if(op < 3) attach(v, t, op == 0 && next++ % 2 ? 3 : op);
                else if(op == 3) detach(v, t);
                else use(v, t, op - 4);
            });
            verifyAll();
            mc::state(hash());
        }
    };
    // Histories over two or three threads of one VM
    void histories() {
        int kind = choose(4);
        World w({kind});
        int n = mc::bound(5, 4, 6, 5) - (kind > 0), threads = 2;
        for(int i = 0; i < n; ++i) {
            int t = choose(threads);
            auto ops = w.enabled(0, t, true);
            w.step(0, t, ops[choose((int)ops.size())]);
        }
    }
    void three() {
        World w({choose(4)});
        int n = mc::bound(4, 3, 5, 4);
        for(int i = 0; i < n; ++i) {
            int t = choose(T);
            auto ops = w.enabled(0, t, true);
            w.step(0, t, ops[choose((int)ops.size())]);
        }
    }
    // Two VMs used by the same threads
    void twoVMs() {
        World w({0, 1});
        int n = mc::bound(4, 3, 5, 4);
        for(int i = 0; i < n; ++i) {
            int v = choose(2), t = choose(2);
            auto ops = w.enabled(v, t, true);
            w.step(v, t, ops[choose((int)ops.size())]);
        }
    }
    // Any number of threads
    void many() {
        int n = 1 + chooseSize(mc::bound(129, 33, 257, 65)), order = choose(3), kind = choose(2);
        std::unique_ptr<Machine> m(make(kind * 2));
        auto main = E([&] { JNIEnv* e; m->java()->GetEnv((void**)&e, JNI_VERSION_1_6); return e; }());
        main->GetClass<Thing>("p/Thing");
        std::vector<std::unique_ptr<Peer>> peers(n);
        std::vector<JNIEnv*> envs(n);
        std::vector<std::weak_ptr<Thing>> objs(n);
        for(int i = 0; i < n; ++i) {
            peers[i].reset(new Peer);
            peers[i]->run([&] {
                m->java()->AttachCurrentThread(&envs[i], nullptr);
                auto o = std::make_shared<Thing>();
                objs[i] = o;
                local(envs[i], o);
            });
        }
        std::set<JNIEnv*> distinct(envs.begin(), envs.end());
        MC_CHECK((int)distinct.size() == n && !distinct.count(main->GetJNIEnv()), "environment", "%zu different ones of %d threads", distinct.size(), n);
        std::vector<bool> detached(n);
        for(int i = 0; i < n; ++i) {
            int k = order == 0 ? i : order == 1 ? n - 1 - i : (i & 1 ? n - 1 - i / 2 : i / 2);
            peers[k]->run([&] { m->java()->DetachCurrentThread(); });
            detached[k] = true;
            for(int j = 0; j < n; ++j) MC_CHECK(objs[j].expired() == detached[j], "released", "references of thread %d of %d after detaching %d", j, n, k);
            for(int j : {0, n / 2, n - 1}) if(!detached[j]) peers[j]->run([&] {
                JNIEnv* e;
                m->java()->GetEnv((void**)&e, JNI_VERSION_1_6);
                MC_CHECK(e == envs[j], "environment", "of thread %d of %d changed after detaching %d", j, n, k);
            });
            mc::transition();
        }
        mc::state(mc::mix(n, order * 2 + kind));
    }
    int init = [] {
        mc::scenario("histories", histories, 3);
        mc::scenario("three", three, 3);
        mc::scenario("two VMs", twoVMs, 3);
        mc::scenario("many", many, 2);
        return 0;
    }();
}
