// P18: scoped environments and local frames on the main and another thread
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    using Jvm = FakeJni::Jvm;
    // Only for attached threads
    JNIEnv* envOf(Jvm& vm) {
        JNIEnv* env = nullptr;
        MC_CHECK(static_cast<JavaVM&>(vm).GetEnv((void**)&env, JNI_VERSION_1_6) == JNI_OK && env, "environment", "GetEnv failed");
        return env;
    }
    bool attachedTo(Jvm& vm) { auto cur = FakeJni::JniEnv::getCurrentEnv(); return cur && &cur->getVM() == &vm; }
    struct Plain : Extends<> {
        static int& alive() { static int n; return n; }
        Plain() { alive()++; }
        virtual ~Plain() { alive()--; }
    };
    // Uses a scope of its own while it is released
    struct Caller : Plain {
        FakeJni::Jvm* vm;
        static int& ran() { static int n; return n; }
        Caller(FakeJni::Jvm* vm) : vm(vm) {}
        ~Caller() {
            try {
                FakeJni::LocalFrame frame(*vm, 2);
                auto& env = frame.getJniEnv();
                auto s = env.NewStringUTF("x");
                MC_FLAG(s && env.GetStringUTFLength(s) == 1, "scope of a destructor", "unusable");
                ran()++;
            } catch(const std::exception& e) {
                mc::flag("scope of a destructor", "%s", e.what());
            }
        }
    };
    enum Kind { CTX_VM, CTX, FRAME_VM, FRAME, KINDS };
    struct Scope {
        Kind kind;
        bool valid;
        bool attaches;
        std::unique_ptr<FakeJni::JniEnvContext> ctx;
        std::unique_ptr<FakeJni::LocalFrame> frame;
        FakeJni::JniEnvContext& get() { return frame ? *frame : *ctx; }
        bool isFrame() const { return kind >= FRAME_VM; }
        std::vector<std::weak_ptr<Plain>> refs;
    };
    struct World;
    struct Thread {
        World* w;
        int no;
        bool attached = false;
        JNIEnv* env = nullptr; // while attached
        bool pending = false; // an exception
        std::vector<Scope> scopes;
        std::vector<std::weak_ptr<Plain>> top; // references outside of all frames
        ~Thread() { while(!scopes.empty()) scopes.pop_back(); }
    };
    struct World {
        std::unique_ptr<Jvm> vm;
        Thread th[2];
        std::unique_ptr<Peer> peer;
        World() {
            th[0].w = th[1].w = this;
            th[0].no = 0;
            th[1].no = 1;
            vm.reset(new Jvm);
            th[0].attached = true;
            th[0].env = envOf(*vm);
        }
        ~World() {
            if(peer) { peer->run([&] { while(!th[1].scopes.empty()) th[1].scopes.pop_back(); }); peer.reset(); }
            while(!th[0].scopes.empty()) th[0].scopes.pop_back();
            vm->DetachCurrentThread();
            vm.reset();
        }
        void on(int t, std::function<void()> f) {
            if(!t) { f(); return; }
            if(!peer) peer.reset(new Peer);
            peer->run(f);
        }
        static bool gone(std::vector<std::weak_ptr<Plain>>& v) { for(auto&& x : v) if(!x.expired()) return false; return true; }
        static bool there(std::vector<std::weak_ptr<Plain>>& v) { for(auto&& x : v) if(x.expired()) return false; return true; }
        // On thread t
        void enter(Thread& t, Kind k, int size) {
            Scope s;
            s.kind = k;
            bool withVm = k == CTX_VM || k == FRAME_VM;
            s.attaches = withVm && !t.attached;
            s.valid = t.attached || withVm;
            log("thread %d: enter %s", t.no, k == CTX_VM ? "JniEnvContext(vm)" : k == CTX ? "JniEnvContext()" : k == FRAME_VM ? "LocalFrame(vm)" : "LocalFrame()");
            bool threw = false;
            try {
                switch(k) {
                case CTX_VM: s.ctx.reset(new FakeJni::JniEnvContext(*vm)); break;
                case CTX: s.ctx.reset(new FakeJni::JniEnvContext()); break;
                case FRAME_VM: s.frame.reset(size ? new FakeJni::LocalFrame(*vm, size) : new FakeJni::LocalFrame(*vm)); break;
                default: s.frame.reset(size ? new FakeJni::LocalFrame(size) : new FakeJni::LocalFrame()); break;
                }
            } catch(const std::runtime_error& e) {
                threw = true;
            }
            bool want = k == FRAME && !s.valid;
            MC_CHECK(threw == want, "error", "entering %d %s", k, threw ? "raised an error" : "without a VM on a thread without environment raised none");
            if(!threw) {
                if(s.attaches) t.attached = true;
                t.scopes.push_back(std::move(s));
            }
            verify(t);
        }
        void leave(Thread& t) {
            auto& s = t.scopes.back();
            log("thread %d: leave scope %zu", t.no, t.scopes.size());
            auto refs = s.refs;
            bool attaches = s.attaches, frame = s.isFrame();
            if(attaches) { t.attached = t.pending = false; t.env = nullptr; }
            t.scopes.pop_back();
            if(frame) MC_CHECK(gone(refs), "released", "references of a frame survive its end");
            if(attaches) { MC_CHECK(gone(t.top), "released", "references survive the detaching of their thread"); t.top.clear(); }
            verify(t);
        }
        void attach(Thread& t) {
            JNIEnv* e = nullptr;
            log("thread %d: attach", t.no);
            MC_CHECK(vm->AttachCurrentThread(&e, nullptr) == JNI_OK && e, "attach", "failed");
            t.attached = true;
            verify(t);
        }
        void detach(Thread& t) {
            log("thread %d: detach", t.no);
            t.attached = t.pending = false;
            t.env = nullptr;
            MC_CHECK(vm->DetachCurrentThread() == JNI_OK, "detach", "failed");
            MC_CHECK(gone(t.top), "released", "references survive the detaching of their thread");
            t.top.clear();
            verify(t);
        }
        // Scopes work the same with an exception pending
        void raise(Thread& t) {
            log("thread %d: %s", t.no, t.pending ? "clear the exception" : "throw an exception");
            t.pending ^= true;
            if(t.pending) {
                t.env->PushLocalFrame(2);
                t.env->ThrowNew(t.env->FindClass("java/lang/Throwable"), "pending");
                t.env->PopLocalFrame(nullptr);
            } else t.env->ExceptionClear();
            verify(t);
        }
        void ref(Thread& t, bool caller) {
            auto& env = t.scopes.back().get().getJniEnv();
            std::shared_ptr<Plain> p = caller ? std::make_shared<Caller>(vm.get()) : std::make_shared<Plain>();
            log("thread %d: new local reference", t.no);
            auto r = env.createLocalReference(p);
            MC_CHECK(env.resolveReference(r) == p, "reference", "another object");
            std::vector<std::weak_ptr<Plain>>* where = &t.top;
            for(auto&& s : t.scopes) if(s.isFrame()) where = &s.refs;
            where->push_back(p);
            p.reset();
            verify(t);
        }
        void verify(Thread& t) {
            auto cur = FakeJni::JniEnv::getCurrentEnv();
            MC_CHECK((bool)cur == t.attached, "current environment", "of thread %d: %s", t.no, cur ? "still there" : "missing");
            if(t.attached) {
                if(!t.env) t.env = envOf(*vm);
                MC_CHECK(envOf(*vm) == t.env, "environment", "of thread %d changed", t.no);
                MC_CHECK((bool)t.env->ExceptionCheck() == t.pending, "exception", "of thread %d is %s", t.no, t.pending ? "lost" : "there");
                JavaVM* back = nullptr;
                t.env->GetJavaVM(&back);
                MC_CHECK(jnivm::VM::FromJavaVM(back) == jnivm::VM::FromJavaVM((JavaVM*)vm.get()), "environment", "of another VM");
            }
            for(auto&& s : t.scopes) {
                if(!s.valid) {
                    bool threw = false;
                    try { s.get().getJniEnv(); } catch(const std::runtime_error&) { threw = true; }
                    MC_CHECK(threw, "error", "a scope without environment raised none on use");
                } else MC_CHECK(&s.get().getJniEnv() == cur && s.get().getJniEnv().GetJNIEnv() == t.env, "environment", "of a scope on thread %d", t.no);
                MC_CHECK(there(s.refs), "released", "references of a frame are gone before its end");
            }
            MC_CHECK(there(t.top), "released", "references are gone before their thread detaches");
            mc::transition();
        }
        void verifyOther(int t) {
            // Nothing another thread does is visible here
            if(!t) verify(th[0]);
            else if(peer) on(1, [&] { verify(th[1]); });
            MC_CHECK(!th[0].attached || !th[1].attached || th[0].env != th[1].env, "environment", "shared by two threads");
        }
        uint64_t hash() {
            uint64_t h = 5;
            for(auto&& t : th) {
                h = mc::mix(h, t.attached + 1000 * t.pending + 2 * t.top.size());
                for(auto&& s : t.scopes) h = mc::mix(h, s.kind * 64 + s.valid * 32 + s.attaches * 16 + s.refs.size());
                h = mc::mix(h, 99);
            }
            return h;
        }
    };
    void histories() {
        World w;
        int n = mc::bound(6, 5, 7, 6);
        int first = choose(2), mode = choose(3), both = choose(2);
        bool callers = mode == 1, throwing = mode == 2;
        if(both) n--;
        if(throwing && (both || !mc::deep())) n--;
        for(int i = 0; i < n; ++i) {
            int t = both ? choose(2) : first;
            auto& th = w.th[t];
            // Only what is possible
            std::vector<int> ops;
            for(int k = 0; k < KINDS; ++k) ops.push_back(k);
            if(!th.scopes.empty()) {
                ops.push_back(4);
                if(th.scopes.back().valid) ops.push_back(5);
            } else {
                ops.push_back(th.attached ? 7 : 6);
            }
            if(throwing && th.attached) ops.push_back(8);
            int op = ops[choose((int)ops.size())];
            w.on(t, [&] {
                if(op < KINDS) w.enter(th, (Kind)op, i & 1 ? 3 : 0);
                else if(op == 4) w.leave(th);
                else if(op == 5) w.ref(th, callers);
                else if(op == 6) w.attach(th);
                else if(op == 8) w.raise(th);
                else w.detach(th);
            });
            w.verifyOther(1 - t);
            mc::state(w.hash());
        }
        // The end: either unwinding or ending the thread while attached
        w.on(1, [&] { while(!w.th[1].scopes.empty()) w.leave(w.th[1]); });
        auto rest = w.th[1].top;
        bool was = w.th[1].attached;
        if(was && mc::deep()) w.on(1, [&] { // A reference left to the end of the thread
            auto cur = FakeJni::JniEnv::getCurrentEnv();
            std::shared_ptr<Plain> p = callers ? std::make_shared<Caller>(w.vm.get()) : std::make_shared<Plain>();
            cur->createLocalReference(p);
            rest.push_back(p);
        });
        w.peer.reset();
        MC_CHECK(World::gone(rest), "released", "references survive the end of their thread");
        w.verifyOther(0);
        while(!w.th[0].scopes.empty()) w.leave(w.th[0]);
        w.verify(w.th[0]);
        if(w.th[0].attached && callers) w.detach(w.th[0]); // While the VM is still whole
    }
    // Any depth of scopes, any number of references
    void deep() {
        int n = chooseSize(mc::bound(257, 65, 1025, 257)), kind = choose(4), t = choose(2), refs = choose(3);
        World w;
        auto& th = w.th[t];
        w.on(t, [&] {
            Plain::alive() = 0;
            for(int i = 0; i < n; ++i) {
                Scope s;
                Kind k = kind == 0 ? FRAME_VM : kind == 1 ? CTX_VM : kind == 2 ? (i & 1 || !th.attached ? FRAME_VM : CTX) : (th.attached && i % 3 ? FRAME : CTX_VM);
                s.kind = k;
                s.valid = true;
                s.attaches = !th.attached;
                if(k == FRAME_VM) s.frame.reset(new FakeJni::LocalFrame(*w.vm, i));
                else if(k == FRAME) s.frame.reset(new FakeJni::LocalFrame());
                else if(k == CTX) s.ctx.reset(new FakeJni::JniEnvContext());
                else s.ctx.reset(new FakeJni::JniEnvContext(*w.vm));
                th.attached = true;
                for(int r = 0; r < (refs == 2 ? (i == n / 2 ? n : 0) : refs); ++r) {
                    auto p = std::make_shared<Plain>();
                    s.get().getJniEnv().createLocalReference(p);
                    auto* where = &th.top;
                    for(auto&& o : th.scopes) if(o.isFrame()) where = &o.refs;
                    (s.isFrame() ? &s.refs : where)->push_back(p);
                }
                th.scopes.push_back(std::move(s));
            }
            w.verify(th);
            while(!th.scopes.empty()) {
                auto r = th.scopes.back().refs;
                bool frame = th.scopes.back().isFrame(), att = th.scopes.back().attaches;
                if(att) { th.attached = false; th.env = nullptr; }
                th.scopes.pop_back();
                if(frame) MC_CHECK(World::gone(r), "released", "references of a frame survive its end at depth %zu of %d", th.scopes.size(), n);
                for(auto&& s : th.scopes) MC_CHECK(World::there(s.refs), "released", "references of an outer frame are gone, depth %zu of %d", th.scopes.size(), n);
                if(att) { MC_CHECK(World::gone(th.top), "released", "references survive the detaching of their thread"); th.top.clear(); }
                mc::transition();
            }
            w.verify(th);
        });
        mc::state(mc::mix(n * 4 + kind, t * 3 + refs));
    }
    // Several VMs, one for each thread
    void vms() {
        int n = mc::bound(4, 3, 5, 4);
        Jvm vm0;
        Peer peer;
        std::unique_ptr<Jvm> vm1;
        peer.run([&] { vm1.reset(new Jvm); });
        std::vector<std::unique_ptr<FakeJni::LocalFrame>> sc[2];
        for(int i = 0; i < n; ++i) {
            int t = choose(2), op = choose(3);
            auto f = [&] {
                auto& vm = t ? *vm1 : vm0;
                if(op == 0) sc[t].emplace_back(new FakeJni::LocalFrame(vm));
                else if(op == 1) sc[t].emplace_back(new FakeJni::LocalFrame());
                else if(!sc[t].empty()) sc[t].pop_back();
                MC_CHECK(attachedTo(vm), "attached", "thread %d lost its environment", t);
                                if(!sc[t].empty()) MC_CHECK(&sc[t].back()->getJniEnv().getVM() == &vm, "environment", "of the other VM");
                mc::transition();
            };
            if(t) peer.run(f); else f();
            mc::state(sc[0].size() * 10 + sc[1].size());
        }
        peer.run([&] { sc[1].clear(); MC_CHECK(attachedTo(*vm1), "attached", "lost at the end"); vm1.reset(); });
        sc[0].clear();
        MC_CHECK(attachedTo(vm0), "attached", "lost at the end");
    }
    int init = [] {
        mc::scenario("histories", histories, 4);
        mc::scenario("deep", deep, 2);
        mc::scenario("vms", vms, 2);
        return 0;
    }();
}
