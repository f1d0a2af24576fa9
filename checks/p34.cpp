// P34: starting a VM runs its main function
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    using Args = std::shared_ptr<FakeJni::JArray<FakeJni::JString>>;
    struct Vm {
        std::shared_ptr<FakeJni::Jvm> vm;
        JavaVM* j;
        Vm(int kind) {
            vm = kind == 0 ? std::make_shared<FakeJni::Jvm>() : kind == 1 ? std::make_shared<FakeJni::Jvm>(false, false) : std::make_shared<Baron::Jvm>();
            j = static_cast<JavaVM*>(vm.get());
        }
        JNIEnv* env() { JNIEnv* e; j->GetEnv((void**)&e, JNI_VERSION_1_6); return e; }
    };
    struct Call { std::string who; bool null; const void* array; std::vector<std::string> args; const void* env; std::thread::id thread; };
    std::vector<Call> calls;
    int cause;
    struct Own { int v; };
    void record(const std::string& who, FakeJni::JArray<FakeJni::JString>* a) {
        Call c { who, !a, a, {}, FakeJni::JniEnv::getCurrentEnv(), std::this_thread::get_id() };
        if(a) for(int i = 0; i < a->getSize(); ++i) { std::shared_ptr<String> s = (*a)[i]; c.args.push_back(s ? std::string(*s) : std::string("<null>")); }
        calls.push_back(c);
        JNIEnv* env = FakeJni::JniEnv::getCurrentEnv();
        env->NewStringUTF("left behind");
        // The array is main's own: nobody who is started later sees what it left there
        if(a) for(int i = 0; i < a->getSize(); ++i) (*a)[i] = i % 2 ? nullptr : std::make_shared<FakeJni::JString>("changed");
        if(cause == 1) throw Own{7};
        if(cause == 2) throw std::runtime_error("main failed");
        if(cause == 3) env->ThrowNew(env->FindClass("java/lang/Throwable"), "thrown by main");
    }
    struct Main : Extends<> {
        static void main(Args a) { record("class", a.get()); }
        static void other() { record("other", nullptr); }
        static jint wrong(Args a) { record("wrong", a.get()); return 0; }
        static void nat(JNIEnv* env, jclass, jobjectArray a) {
            record("native", unwrap<FakeJni::JArray<FakeJni::JString>>(env, a).get());
        }
    };
    struct Other : Extends<> {};
    enum Decl { CREATE_SHARED, CREATE_POINTER, HOOK, HOOK_LATE_CLASS, NATIVE, HOOK_DERIVED, DECLS };
    struct Sub : Extends<Main> {};
    // Declares the main function, returns what it calls itself
    std::string declare(Vm& v, int how, const std::string& tag) {
        auto env = v.env();
        auto e = E(env);
        switch(how) {
        case CREATE_SHARED:
            FakeJni::createMainMethod(*v.vm, [tag](Args a) { record("create" + tag, a.get()); });
            return "create" + tag;
        case CREATE_POINTER:
            FakeJni::createMainMethod(*v.vm, [tag](FakeJni::JArray<FakeJni::JString>* a) { record("pointer" + tag, a); });
            return "pointer" + tag;
        case HOOK: case HOOK_LATE_CLASS: {
            if(how == HOOK_LATE_CLASS) { e->GetClass<Other>("a/Other"); env->FindClass("z/Unused"); }
            e->GetClass<Main>("m/Main")->Hook(e, "main", &Main::main);
            return "class";
        }
        case HOOK_DERIVED: {
            e->GetClass<Main>("m/Main")->Hook(e, "main", &Main::main);
            e->GetClass<Sub>("m/Sub");
            return "class";
        }
        default: {
            auto c = e->GetClass<Main>("m/Main");
            JNINativeMethod m = { (char*)"main", (char*)"([Ljava/lang/String;)V", (void*)&Main::nat };
            env->RegisterNatives((jclass)(Object*)c.get(), &m, 1);
            return "native";
        }
        }
    }
    // Functions nobody may take for main
    void noise(Vm& v, int which) {
        auto env = v.env();
        auto e = E(env);
        auto c = e->GetClass<Other>("n/Other");
        if(which & 1) c->Hook(e, "main", &Main::other);
        if(which & 2) c->Hook(e, "Main", &Main::main);
        if(which & 4) c->Hook(e, "main", &Main::wrong);
    }
    size_t held(JNIEnv* env) {
        size_t n = 0;
        for(auto& f : E(env)->localframe) n += f.size();
        return n;
    }
    size_t frames(JNIEnv* env) { return std::distance(E(env)->localframe.begin(), E(env)->localframe.end()); }

    Args makeArgs(int n) {
        if(n < 0) return nullptr;
        auto a = std::make_shared<FakeJni::JArray<FakeJni::JString>>(n);
        for(int i = 0; i < n; ++i) if(i % 3 != 2) (*a)[i] = std::make_shared<FakeJni::JString>("arg" + std::to_string(i));
        return a;
    }
    std::string outcome(std::function<void()> f) {
        try { f(); }
        catch(const Own& o) { return "own " + std::to_string(o.v); }
        catch(const std::exception& x) { return std::string("exception ") + x.what(); }
        return "returned";
    }
    // One start and what it did. who is empty if there is no main function
    void start(Vm& v, const std::string& who, int n, bool attached) {
        calls.clear();
        Args a = n == -2 ? nullptr : makeArgs(n);
        std::weak_ptr<FakeJni::JArray<FakeJni::JString>> wa = a;
        auto ptr = a.get();
        JNIEnv* env = attached ? v.env() : nullptr;
        size_t h = attached ? held(env) : 0, fr = attached ? frames(env) : 0;
        auto got = outcome([&] { if(n == -2) v.vm->start(); else v.vm->start(a); });
        static const char* want[] = { "returned", "own 7", "exception main failed", "exception thrown by main" };
        if(who.empty()) {
            MC_CHECK(calls.empty(), "called", "without a main function '%s' ran", calls[0].who.data());
            MC_CHECK(got.substr(0, 9) == "exception", "missing", "without a main function start %s", got.data());
        } else {
            MC_CHECK(calls.size() == 1, "called", "%zu functions ran", calls.size());
            auto& c = calls[0];
            MC_CHECK(c.who == who, "called", "'%s' ran instead of '%s'", c.who.data(), who.data());
            MC_CHECK(c.thread == std::this_thread::get_id() && c.env, "thread", "main has no environment or another thread");
            if(n == -2) {
                MC_CHECK(!c.null && c.args == std::vector<std::string>{"main"}, "arguments", "default arguments: %zu", c.args.size());
            } else {
                MC_CHECK(c.array == ptr, "arguments", "main got another array");
                if(n >= 0) {
                    MC_CHECK((int)c.args.size() == n, "arguments", "%zu arguments instead of %d", c.args.size(), n);
                    for(int i = 0; i < n; ++i) MC_CHECK(c.args[i] == (i % 3 == 2 ? std::string("<null>") : "arg" + std::to_string(i)), "arguments", "argument %d is '%s'", i, c.args[i].data());
                }
            }
            MC_CHECK(got == want[cause], "outcome", "start: '%s' instead of '%s'", got.data(), want[cause]);
        }
        if(attached) {
            MC_CHECK(v.env() == env, "environment", "the thread has another environment afterwards");
            env->ExceptionClear();
            MC_CHECK(frames(env) == fr && held(env) == h, "references", "%zu frames and %zu references instead of %zu and %zu", frames(env), held(env), fr, h);
        } else {
            MC_CHECK(!FakeJni::JniEnv::getCurrentEnv(), "attached", "the thread is still attached");
        }
        a.reset();
        MC_CHECK(wa.expired(), "lifetime", "the arguments are still referred to");
        mc::transition();
    }
    void single() {
        int kind = choose(3), how = choose(DECLS), n = choose(13) - 2, noises = choose(8), thread = choose(3);
        cause = choose(4);
        log("vm %d declared %d arguments %d noise %d thread %d raises %d", kind, how, n, noises, thread, cause);
        Vm v(kind);
        bool before = noises & 1;
        if(before) noise(v, noises);
        auto who = declare(v, how, "");
        if(!before) noise(v, noises);
        if(thread == 0) start(v, who, n, true);
        // A thread that is not attached
        if(thread == 1) Peer().run([&] { start(v, who, n, false); });
        if(thread == 2) Peer().run([&] { FakeJni::JniEnvContext c(*v.vm); start(v, who, n, true); });
        cause = 0;
        start(v, who, -2, true);
        v.j->DetachCurrentThread();
    }
    void none() {
        int kind = choose(3), noises = choose(8), n = choose(4) - 2, thread = choose(2);
        cause = 0;
        Vm v(kind);
        noise(v, noises);
        log("vm %d noise %d", kind, noises);
        if(thread) Peer().run([&] { start(v, "", n, false); });
        else start(v, "", n, true);
        v.j->DetachCurrentThread();
    }
    // Starts, replacements and lookups in any order; two VMs one after the other
    void history() {
        static const int DEPTH = mc::bound(5, 4, 7, 5);
        int kind = choose(3);
        auto v = std::make_unique<Vm>(kind);
        std::string who;
        bool created = false;
        int tag = 0;
        for(int step = 0; step < DEPTH; ++step) {
            int op = choose(8);
            if(op == 7) break;
            log("op %d", op);
            cause = 0;
            switch(op) {
            case 0: who = declare(*v, CREATE_SHARED, std::to_string(++tag)); created = true; break;
            case 1: who = declare(*v, CREATE_POINTER, std::to_string(++tag)); created = true; break;
            case 2: start(*v, who, -2, true); break;
            case 3: start(*v, who, 2, true); break;
            case 4: cause = 1 + choose(3); start(*v, who, 1, true); break;
            case 5: {
                auto env = v->env();
                auto c = env->FindClass("m/Seen");
                env->ExceptionClear();
                if(c) { env->GetStaticMethodID(c, "main", "()V"); env->ExceptionClear(); }
                break;
            }
            case 6:
                v->j->DetachCurrentThread();
                v.reset();
                v = std::make_unique<Vm>(kind);
                who.clear();
                break;
            }
            mc::transition();
        }
        v->j->DetachCurrentThread();
        (void)created;
    }
    // The main function can start threads, start again and use the VM
    void nested() {
        int kind = choose(3), depth = 1 + choose(3), fail = choose(2);
        Vm v(kind);
        v.env();
        int level = 0, runs = 0;
        Vm* pv = &v;
        FakeJni::createMainMethod(*v.vm, [&, pv](Args a) {
            runs++;
            MC_CHECK(a && a->getSize() == level + 1, "arguments", "%d arguments at level %d", a ? (int)a->getSize() : -1, level);
            if(level + 1 < depth) {
                level++;
                pv->vm->start(makeArgs(level + 1));
                level--;
            } else if(fail) throw Own{9};
        });
        auto env = v.env();
        auto fr = frames(env), h = held(env);
        auto got = outcome([&] { v.vm->start(makeArgs(1)); });
        MC_CHECK(runs == depth, "called", "main ran %d times", runs);
        MC_CHECK(got == (fail ? "own 9" : "returned"), "outcome", "start: %s", got.data());
        env->ExceptionClear();
        MC_CHECK(frames(env) == fr && held(env) == h, "references", "references or frames are left");
        v.j->DetachCurrentThread();
    }
    // Many classes with many other members, main anywhere among them
    void crowd() {
        cause = 0;
        static const int sizes[] = {1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 33, 65};
        int kind = choose(3), n = sizes[choose(12)], members = choose(12), at = choose(3), pos = choose(3), how = choose(3);
        members = sizes[members] - 1;
        at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
        pos = pos == 0 ? 0 : pos == 1 ? members / 2 : members;
        log("vm %d: %d classes with %d members, main of class %d after %d members, declared by way %d", kind, n, members, at, pos, how);
        Vm v(kind);
        auto e = E(v.env());
        std::string who = how == 1 ? "native" : "class";
        for(int i = 0; i < n; ++i) {
            auto c = e->GetClass(("crowd/C" + std::to_string(i)).data());
            for(int m = 0; m <= members; ++m) {
                if(i == at && m == pos) {
                    JNINativeMethod x = { (char*)"main", (char*)"([Ljava/lang/String;)V", (void*)&Main::nat };
                    if(how == 1) v.env()->RegisterNatives((jclass)(Object*)c.get(), &x, 1);
                    else c->Hook(e, "main", &Main::main);
                }
                if(m < members) {
                    auto name = "main" + std::to_string(m);
                    if(m % 3 == 0) c->Hook(e, name, &Main::main);
                    else if(m % 3 == 1) c->Hook(e, how == 2 ? "main" : name.data(), &Main::other);
                    else c->Hook(e, name, &Main::wrong);
                }
            }
        }
        start(v, who, 2, true);
        start(v, who, -2, true);
        v.j->DetachCurrentThread();
    }
    int init = [] {
        mc::scenario("single", single, 3);
        mc::scenario("none", none, 2);
        mc::scenario("history", history, 3);
        mc::scenario("nested", nested, 1);
        mc::scenario("crowd", crowd, 2);
        return 0;
    }();
}
