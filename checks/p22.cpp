// P22: concurrent attach and detach keep environments separate
#include "../mc/sched/conc.hpp"
using namespace ch;

namespace {
    enum Kind { PLAIN, ENVIRONMENT, ATTACHES, STAYS, SCOPED, KINDS };
    const char* kindname[] = { "nothing", "gets the environment, looks up a class and detaches", "attaches, makes references and detaches", "attaches and stays attached", "uses a scope" };
    struct Obj : Tracked<> {
        Kind kind;
        JavaVM* jvm;
        FakeJni::Jvm* fake;
        static Counter& ran() { static Counter n; return n; }
        Obj(Kind k, JavaVM* j, FakeJni::Jvm* f) : kind(k), jvm(j), fake(f) {}
        ~Obj() {
            JNIEnv* env = nullptr;
            switch(kind) {
            case PLAIN: return;
            case ENVIRONMENT:
                SCHED_CHECK(jvm->GetEnv((void**)&env, JNI_VERSION_1_6) == JNI_OK && env, "destructor", "GetEnv failed in a destructor");
                SCHED_CHECK(env->FindClass(fake ? "java/lang/String" : "a/Z"), "destructor", "FindClass failed in a destructor");
                jvm->DetachCurrentThread();
                break;
            case ATTACHES: case STAYS: {
                SCHED_CHECK(jvm->AttachCurrentThread(&env, nullptr) == JNI_OK && env, "destructor", "AttachCurrentThread failed in a destructor");
                auto s = env->NewStringUTF("x");
                auto g = env->NewGlobalRef(s);
                SCHED_CHECK(s && g && env->GetStringUTFLength((jstring)g) == 1, "destructor", "references can't be used in a destructor");
                env->DeleteGlobalRef(g);
                if(kind == ATTACHES) jvm->DetachCurrentThread();
                break;
            }
            case SCOPED:
                if(fake) {
                    FakeJni::LocalFrame frame(*fake, 2);
                    SCHED_CHECK(frame.getJniEnv().NewStringUTF("y"), "destructor", "a scope can't be used in a destructor");
                } else {
                    jvm->GetEnv((void**)&env, JNI_VERSION_1_6);
                    env->PushLocalFrame(2);
                    SCHED_CHECK(env->NewStringUTF("y"), "destructor", "a frame can't be used in a destructor");
                    env->PopLocalFrame(nullptr);
                    jvm->DetachCurrentThread();
                }
                break;
            default: break;
            }
            ran().add(1);
        }
    };
    enum { ATTACH, DAEMON, GETENV, VMENV, DETACH, LOCAL, LOCALK, USE, THROW, SCOPE, CONTEXT, GLOBAL, OPS };
    const char* opname[] = { "AttachCurrentThread", "AttachCurrentThreadAsDaemon", "GetEnv", "VM::GetEnv", "DetachCurrentThread", "local reference", "local reference with a destructor that uses the VM",
        "FindClass and strings", "Throw", "scoped frame", "scoped environment", "global reference" };
    typedef std::vector<int> Prog;

    struct World {
        std::unique_ptr<VM> plain;
        std::unique_ptr<FakeJni::Jvm> fake;
        std::unique_ptr<Baron::Jvm> baron;
        VM* vm;
        FakeJni::Jvm* fj = nullptr;
        JavaVM* jvm;
        JNIEnv* main;
        Kind kind;
        JNIEnv* envs[4] = {};
        World(int which, Kind kind) : kind(kind) {
            if(which == 0) { plain.reset(new VM()); vm = plain.get(); }
            else if(which == 1) { fake.reset(new FakeJni::Jvm()); fj = fake.get(); }
            else { baron.reset(new Baron::Jvm()); fj = baron.get(); }
            struct Open : FakeJni::Jvm { static VM* vm(FakeJni::Jvm* f) { return f; } };
            if(fj) vm = Open::vm(fj);
            jvm = vm->GetJavaVM();
            main = vm->GetJNIEnv();
            E(main)->GetClass<Obj>("x/Obj");
            envs[0] = main;
        }
        __attribute__((no_sanitize_thread, noinline)) bool claim(int t, JNIEnv* env) {
            for(int i = 0; i < 4; ++i) if(i != t && envs[i] == env && env) return false;
            envs[t] = env;
            return true;
        }
    };
    struct Thread {
        World& w;
        int no;
        JNIEnv* env = nullptr;
        bool pending = false;
        std::vector<std::pair<std::weak_ptr<Obj>, jobject>> locals;
        int stays = 0, callers = 0;
        Thread(World& w, int no) : w(w), no(no) { locals.reserve(8); }

        void attached(JNIEnv* e, const char* how) {
            SCHED_CHECK(e, "attach", "%s gave no environment", how);
            if(env) SCHED_CHECK(e == env, "changed", "%s gave another environment than the thread already has", how);
            else {
                env = e;
                pending = false;
            }
            SCHED_CHECK(w.claim(no, e), "shared", "%s gave the environment of another thread", how);
        }
        void verify() {
            if(!env) return;
            JavaVM* v = nullptr;
            SCHED_CHECK(env->GetJavaVM(&v) == JNI_OK && v == w.jvm, "vm", "wrong GetJavaVM");
            SCHED_CHECK(env->ExceptionCheck() == pending, "exception", pending ? "the exception of this thread is gone" : "an exception of another thread is pending");
            for(auto& l : locals) {
                auto p = l.first.lock();
                SCHED_CHECK(p && p->magic == Obj::ALIVE, "released", "a local reference of this thread was released");
                SCHED_CHECK(unwrap<Obj>(env, l.second) == p, "reference", "a local reference refers to something else");
            }
        }
        void detach() {
            SCHED_CHECK(w.claim(no, nullptr), "claim", "-");
            env = nullptr;
            int before = Obj::ran().get();
            SCHED_CHECK(w.jvm->DetachCurrentThread() == JNI_OK, "detach", "DetachCurrentThread failed");
            // A destructor attached the thread again
            if(stays) SCHED_CHECK(w.jvm->DetachCurrentThread() == JNI_OK, "detach", "DetachCurrentThread failed");
            for(auto& l : locals) SCHED_CHECK(l.first.expired(), "kept", "a local reference of a detached thread still holds its object");
            (void)before;
            locals.clear();
            stays = callers = 0;
        }
        void make(Kind k) {
            auto o = std::make_shared<Obj>(k, w.jvm, w.fj);
            auto l = local(env, o);
            SCHED_CHECK(l, "local", "no local reference");
            locals.push_back({o, l});
            if(k == STAYS) stays++;
        }
        void run(int op) {
            JNIEnv* e = nullptr;
            switch(op) {
            case ATTACH: SCHED_CHECK(w.jvm->AttachCurrentThread(&e, nullptr) == JNI_OK, "attach", "failed"); attached(e, opname[op]); break;
            case DAEMON: SCHED_CHECK(w.jvm->AttachCurrentThreadAsDaemon(&e, nullptr) == JNI_OK, "attach", "failed"); attached(e, opname[op]); break;
            case GETENV: SCHED_CHECK(w.jvm->GetEnv((void**)&e, JNI_VERSION_1_6) == JNI_OK, "attach", "failed"); attached(e, opname[op]); break;
            case VMENV: {
                auto x = w.vm->GetEnv();
                SCHED_CHECK((x != nullptr) == (env != nullptr), "getenv", "VM::GetEnv gives %s environment", x ? "an" : "no");
                if(x) { SCHED_CHECK(x->GetJNIEnv() == env, "getenv", "VM::GetEnv gives another environment"); SCHED_CHECK(w.vm->GetJNIEnv() == env, "getenv", "VM::GetJNIEnv gives another environment"); }
                break;
            }
            case DETACH: if(env) detach(); else SCHED_CHECK(w.jvm->DetachCurrentThread() == JNI_OK, "detach", "failed"); break;
            case LOCAL: if(env) make(PLAIN); break;
            case LOCALK: if(env) make(w.kind); break;
            case USE:
                if(env && !pending) {
                    auto c = env->FindClass("a/Z"), d = env->FindClass("java/lang/String");
                    SCHED_CHECK(d, "class", "a class was not found");
                    (void)c;
                    auto s = env->NewStringUTF("abc");
                    SCHED_CHECK(env->GetStringUTFLength(s) == 3, "string", "wrong length");
                    env->DeleteLocalRef(s);
                }
                break;
            case THROW:
                if(env && !pending) {
                    auto t = std::make_shared<Throwable>();
                    t->except = std::make_exception_ptr(std::runtime_error("x"));
                    SCHED_CHECK(env->Throw((jthrowable)local(env, t)) == 0, "throw", "failed");
                    pending = true;
                } else if(env) { env->ExceptionClear(); pending = false; }
                break;
            case SCOPE: case CONTEXT:
                if(w.fj) {
                    auto inside = [&](FakeJni::Env& in) {
                        auto i = static_cast<JNIEnv*>(&in);
                        if(env) SCHED_CHECK(E(i) == E(env), "scope", "the environment of a scope is not the thread's");
                        auto now = w.vm->GetJNIEnv();
                        bool had = env;
                        if(!had) SCHED_CHECK(w.claim(no, now), "shared", "the scope has the environment of another thread");
                        auto s = in.NewStringUTF("ab");
                        SCHED_CHECK(s && in.GetStringUTFLength(s) == 2, "scope", "strings don't work in a scope");
                        if(!had) w.claim(no, nullptr);
                    };
                    std::weak_ptr<Obj> p;
                    if(op == SCOPE) {
                        FakeJni::LocalFrame f(*w.fj, 2);
                        inside(static_cast<FakeJni::Env&>(f.getJniEnv()));
                        auto o = std::make_shared<Obj>(PLAIN, w.jvm, w.fj);
                        p = o;
                        local(w.vm->GetJNIEnv(), o);
                    } else {
                        FakeJni::JniEnvContext c(*w.fj);
                        inside(static_cast<FakeJni::Env&>(c.getJniEnv()));
                    }
                    if(op == SCOPE) SCHED_CHECK(p.expired(), "scope", "a reference outlives its scope");
                    if(!env) { SCHED_CHECK(!w.vm->GetEnv(), "scope", "the thread is still attached after the scope that attached it"); }
                } else if(env) {
                    env->PushLocalFrame(2);
                    auto o = std::make_shared<Obj>(PLAIN, w.jvm, w.fj);
                    std::weak_ptr<Obj> p = o;
                    auto l = local(env, o);
                    o.reset();
                    SCHED_CHECK(!p.expired(), "frame", "a reference does not hold its object");
                    (void)l;
                    env->PopLocalFrame(nullptr);
                    SCHED_CHECK(p.expired(), "frame", "a reference outlives its frame");
                }
                break;
            case GLOBAL:
                if(env) {
                    auto s = env->NewStringUTF("g");
                    auto g = env->NewGlobalRef(s);
                    env->DeleteLocalRef(s);
                    SCHED_CHECK(g && env->GetStringUTFLength((jstring)g) == 1, "global", "wrong string");
                    env->DeleteGlobalRef(g);
                }
                break;
            }
            verify();
        }
    };
    void check(int which, Kind kind, const std::vector<Prog>& progs) {
        {
            World w(which, kind);
            std::vector<std::function<void()>> bodies;
            for(size_t i = 0; i < progs.size(); ++i) {
                bodies.push_back([&, i] {
                    Thread t(w, (int)i + 1);
                    for(auto op : progs[i]) { log("%s", opname[op]); t.run(op); }
                    log("end");
                    if(t.env) t.detach();
                });
            }
            sched::parallel(bodies);
            SCHED_CHECK(Obj::alive().get() == 0, "leak", "%d objects of detached threads are left", Obj::alive().get());
            SCHED_CHECK(w.vm->GetJNIEnv() == w.main, "main", "the environment of the main thread changed");
            int n = 0;
            for(auto& e : w.vm->jnienvs) n += e.second != nullptr;
            SCHED_CHECK(n == 1, "environments", "%d environments are left", n - 1);
            SCHED_CHECK(w.main->ExceptionCheck() == JNI_FALSE, "exception", "an exception of another thread is pending");
            if(w.fj) w.jvm->DetachCurrentThread();
        }
    }
    int init = [] {
        sched::scenario("pairs", [] {
            int which = choose(sched::thorough() ? 3 : 2);
            int a = choose(OPS), b = choose(OPS), first = choose(2);
            check(which, ENVIRONMENT, {first ? Prog{ATTACH, a, DETACH} : Prog{a}, {GETENV, b}});
        }, 2, 3);
        sched::scenario("destructors", [] {
            int which = choose(sched::thorough() ? 3 : 2);
            auto k = (Kind)(1 + choose(KINDS - 1));
            static const int other[] = { LOCALK, USE, SCOPE, LOCAL, THROW, GLOBAL };
            check(which, k, {{ATTACH, LOCALK, DETACH}, {DAEMON, other[choose(6)], DETACH}});
        }, 2, 3);
        sched::scenario("again", [] {
            int which = choose(sched::thorough() ? 3 : 2);
            int a = choose(OPS), b = choose(OPS);
            check(which, ATTACHES, {{ATTACH, a, DETACH, GETENV, b, DETACH}, {GETENV, b, DETACH, a, ATTACH}});
        }, 1, 2);
        sched::scenario("three", [] {
            int which = choose(2);
            int a = choose(OPS), b = choose(OPS);
            check(which, (Kind)(ENVIRONMENT + (a + b) % 4), {{ATTACH, a, DETACH}, {GETENV, b, DETACH}, {ATTACH, LOCALK}});
        }, 1, 2);
        return 0;
    }();
}
