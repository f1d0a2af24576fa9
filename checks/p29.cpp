// P29: hooks and overrides of the function tables
#include "../mc/jh.hpp"
#include <sstream>
using namespace jh;

namespace {
    constexpr int SLOTS = sizeof(JNINativeInterface) / sizeof(void*), ISLOTS = sizeof(JNIInvokeInterface) / sizeof(void*);
    using Table = std::array<void*, SLOTS>;
    using ITable = std::array<void*, ISLOTS>;
    Table table(const JNINativeInterface& n) { Table t; memcpy(t.data(), &n, sizeof(n)); return t; }
    ITable table(const JNIInvokeInterface& n) { ITable t; memcpy(t.data(), &n, sizeof(n)); return t; }

    // Makes what derived classes may use available
    struct EnvAccess : ENV { static void (ENV::*f())(const JNINativeInterface&) { return &EnvAccess::OverrideJNINativeInterface; } };
    struct VMAccess : VM { static void (VM::*f())(const JNIInvokeInterface&) { return &VMAccess::OverrideJNIInvokeInterface; } };
    void overrideEnv(ENV* e, const JNINativeInterface& n) { (e->*EnvAccess::f())(n); }
    void overrideVM(VM* v, const JNIInvokeInterface& n) { (v->*VMAccess::f())(n); }

    struct OwnEnv : ENV {
        OwnEnv(VM* v, const JNINativeInterface& n) : ENV(v, n) {
            auto t = n;
            t.reserved3 = (void*)0x33;
            t.reserved0 = nullptr;
            OverrideJNINativeInterface(t);
        }
    };
    // A VM with environments of its own
    struct OwnVM : VM {
        OwnVM() : VM(true, true) { initialize(); }
        std::shared_ptr<ENV> CreateEnv() override {
            auto t = GetNativeInterfaceTemplate();
            for(auto&& h : jnienvhooks) h(t);
            return std::make_shared<OwnEnv>(this, t);
        }
    };
    struct HookJvm : FakeJni::Jvm { using jnivm::VM::AddHook; };

    struct AVM {
        int kind;
        std::shared_ptr<VM> plain;
        std::shared_ptr<HookJvm> fake;
        std::shared_ptr<Baron::Jvm> baron;
        VM* vm;
        JavaVM* jvm;
        AVM(int k) : kind(k) {
            if(k == 0 || k == 1) plain = std::make_shared<VM>(false, k == 1);
            else if(k == 2) plain = std::make_shared<OwnVM>();
            else if(k == 3) fake = std::make_shared<HookJvm>();
            else baron = std::make_shared<Baron::Jvm>();
            if(plain) { vm = plain.get(); jvm = vm->GetJavaVM(); }
            else { jvm = fake ? static_cast<JavaVM*>(fake.get()) : static_cast<JavaVM*>(baron.get()); vm = VM::FromJavaVM(jvm); }
        }
        void hook(std::function<void(JNINativeInterface&)> h) {
            if(plain) plain->AddHook(std::move(h));
            else if(fake) fake->AddHook(std::move(h));
            else baron->AddHook(std::move(h));
        }
        // Only one VM of fake-jni for each thread
        bool exclusive() const { return kind >= 3; }
    };
    constexpr int KINDS = 5;
    Peer& peer(int i) { static Peer* p[3] = {nullptr, new Peer, new Peer}; return *p[i]; }
    template<class F> void on(int t, F f) { if(t) peer(t).run(f); else f(); }

    // Functions that count their calls and call what they replaced
    constexpr int CHAIN = 4;
    jint (JNICALL *prevVersion[CHAIN])(JNIEnv*);
    jclass (JNICALL *prevFind[CHAIN])(JNIEnv*, const char*);
    std::vector<int> called;
    template<int I> jint version(JNIEnv* e) { called.push_back(I); return prevVersion[I](e); }
    template<int I> jclass find(JNIEnv* e, const char* n) { called.push_back(100 + I); return prevFind[I](e, n); }
    jint (JNICALL *versions[CHAIN])(JNIEnv*) = {version<0>, version<1>, version<2>, version<3>};
    jclass (JNICALL *finds[CHAIN])(JNIEnv*, const char*) = {find<0>, find<1>, find<2>, find<3>};
    jint (JNICALL *prevAttach[CHAIN])(JavaVM*, JNIEnv**, void*);
    template<int I> jint attach(JavaVM* v, JNIEnv** e, void* a) { called.push_back(200 + I); return prevAttach[I](v, e, a); }
    jint (JNICALL *attaches[CHAIN])(JavaVM*, JNIEnv**, void*) = {attach<0>, attach<1>, attach<2>, attach<3>};

    // The table of an environment of each kind without any hook, and of the VM
    struct Reference { Table env; ITable vm; };
    const Reference& reference(int kind) {
        static Reference* r[KINDS];
        if(!r[kind]) {
            auto n = new Reference;
            peer(2).run([&] {
                AVM v(kind);
                JNIEnv* e;
                v.jvm->AttachCurrentThread(&e, nullptr);
                n->env = table(*e->functions);
                n->vm = table(*v.jvm->functions);
                v.jvm->DetachCurrentThread();
            });
            r[kind] = n;
        }
        return *r[kind];
    }
    int slotOf(size_t offset) { return (int)(offset / sizeof(void*)); }
    const int VERSION = slotOf(offsetof(JNINativeInterface, GetVersion)), FIND = slotOf(offsetof(JNINativeInterface, FindClass)), ATTACH = slotOf(offsetof(JNIInvokeInterface, AttachCurrentThread));

    struct Owned {
        std::unique_ptr<AVM> v;
        std::vector<std::function<void(Table&)>> hooks;
        ITable expectVM;
        struct Env { JNIEnv* env = nullptr; Table expect; } envs[3];
        Owned(int kind) : v(new AVM(kind)) {
            expectVM = reference(kind).vm;
            envs[0].env = nullptr;
        }
        Table expected() {
            Table t = reference(v->kind).env;
            for(auto& h : hooks) h(t);
            if(v->kind == 2) t[3] = (void*)0x33;
            return t;
        }
    };
    void check(Owned& o) {
        auto& v = *o.v;
        ITable have = table(*v.jvm->functions);
        for(int s = 1; s < ISLOTS; ++s) MC_CHECK(have[s] == o.expectVM[s], "invoke table", "function %d of the VM", s);
        MC_CHECK(v.vm->GetJavaVM()->functions == v.jvm->functions, "invoke table", "the handles of one VM differ");
        MC_CHECK(VM::FromJavaVM(v.jvm) == v.vm && VM::FromJavaVM(v.vm->GetJavaVM()) == v.vm, "identity", "a handle of the VM leads elsewhere");
        for(int t = 0; t < 3; ++t) if(auto env = o.envs[t].env) {
            Table got = table(*env->functions);
            for(int s = 1; s < SLOTS; ++s) MC_CHECK(got[s] == o.envs[t].expect[s], "table", "function %d of the environment of thread %d", s, t);
            ENV* e = E(env);
            MC_CHECK(e->GetVM() == v.vm, "identity", "the environment of thread %d leads to another VM", t);
            MC_CHECK(e->GetJNIEnv()->functions == env->functions && E(e->GetJNIEnv()) == e, "identity", "the environment of thread %d leads to another environment", t);
            on(t, [&] {
                JavaVM* j = nullptr;
                env->GetJavaVM(&j);
                if(!j || VM::FromJavaVM(j) != v.vm) { MC_FLAG(false, "identity", "GetJavaVM of thread %d", t); return; }
                MC_FLAG(v.vm->GetEnv().get() == e, "identity", "the environment of thread %d", t);
                JNIEnv* again = nullptr;
                called.clear();
                v.jvm->GetEnv((void**)&again, JNI_VERSION_1_6);
                MC_FLAG(again && E(again) == e, "identity", "GetEnv of thread %d", t);
            });
        }
    }
    // What the functions do, called on their thread
    void behave(Owned& o, int t) {
        auto env = o.envs[t].env;
        if(!env) return;
        on(t, [&] {
            auto expectChain = [&](int slot, int base, void* const* fns, int n) {
                std::vector<int> r;
                void* f = o.envs[t].expect[slot];
                for(bool more = true; more;) {
                    more = false;
                    for(int i = 0; i < n; ++i) if(fns[i] == f) {
                        r.push_back(base + i);
                        f = base ? (void*)prevFind[i] : (void*)prevVersion[i];
                        more = true;
                        break;
                    }
                }
                return r;
            };
            called.clear();
            jint ver = env->GetVersion();
            MC_FLAG(called == expectChain(VERSION, 0, (void* const*)versions, CHAIN), "behaviour", "GetVersion of thread %d ran %d functions", t, (int)called.size());
            MC_FLAG(ver == reinterpret_cast<jint(*)(JNIEnv*)>(reference(o.v->kind).env[VERSION])(env), "behaviour", "GetVersion");
            called.clear();
            auto c = env->FindClass("java/lang/String");
            MC_FLAG(called == expectChain(FIND, 100, (void* const*)finds, CHAIN), "behaviour", "FindClass of thread %d ran %d functions", t, (int)called.size());
            MC_FLAG(c && unwrap<Class>(env, c)->nativeprefix == "java/lang/String", "behaviour", "FindClass");
            // The others
            auto s = env->NewStringUTF("text");
            MC_FLAG(env->GetStringLength(s) == 4 && env->IsInstanceOf(s, c), "behaviour", "strings");
            auto a = env->NewIntArray(3);
            jint x = 7;
            env->SetIntArrayRegion(a, 1, 1, &x);
            jint y[3];
            env->GetIntArrayRegion(a, 0, 3, y);
            MC_FLAG(y[0] == 0 && y[1] == 7 && y[2] == 0 && env->GetArrayLength(a) == 3, "behaviour", "arrays");
            auto g = env->NewGlobalRef(s);
            MC_FLAG(env->IsSameObject(g, s), "behaviour", "references");
            env->DeleteGlobalRef(g);
            env->DeleteLocalRef(s);
            env->DeleteLocalRef(a);
            env->DeleteLocalRef(c);
        });
    }

    constexpr int OPS = 15;
    struct Run {
        std::unique_ptr<Owned> a, b;
        int chain = 0, fchain = 0, achain = 0;
        void attach(Owned& o, int t, bool detach) {
            on(t, [&] {
                if(detach) { o.v->jvm->DetachCurrentThread(); o.envs[t].env = nullptr; }
                called.clear();
                JNIEnv* e = nullptr;
                if(detach) o.v->jvm->AttachCurrentThread(&e, nullptr); else o.v->jvm->GetEnv((void**)&e, JNI_VERSION_1_6);
                if(!o.envs[t].env) { o.envs[t].env = e; o.envs[t].expect = o.expected(); }
                MC_FLAG(o.envs[t].env == e || E(e) == E(o.envs[t].env), "identity", "another environment of thread %d", t);
            });
        }
        void op(int k) {
            switch(k) {
            case 0: case 1: {
                // The chain of a function goes on from hook to hook
                if(chain == CHAIN) break;
                int i = chain++;
                prevVersion[i] = nullptr;
                auto& o = k == 1 && b ? *b : *a;
                o.v->hook([i](JNINativeInterface& n) { prevVersion[i] = n.GetVersion; n.GetVersion = versions[i]; });
                o.hooks.push_back([i](Table& t) { t[VERSION] = (void*)versions[i]; });
                break;
            }
            case 2: {
                if(fchain == CHAIN) break;
                int i = fchain++;
                a->v->hook([i](JNINativeInterface& n) { prevFind[i] = n.FindClass; n.FindClass = finds[i]; });
                a->hooks.push_back([i](Table& t) { t[FIND] = (void*)finds[i]; });
                break;
            }
            case 3:
                // The place of the identity is not for hooks
                a->v->hook([](JNINativeInterface& n) { n.reserved0 = (void*)1; n.reserved1 = (char*)n.reserved1 + 1; });
                a->hooks.push_back([](Table& t) { t[1] = (char*)t[1] + 1; });
                break;
            case 4:
                // Another table that others have changed before
                a->v->hook([](JNINativeInterface& n) { auto r1 = n.reserved1; n = VM::GetNativeInterfaceTemplate<false>(); n.reserved1 = (char*)r1 + 2; });
                a->hooks.push_back([](Table& t) { auto r1 = t[1]; t = table(VM::GetNativeInterfaceTemplate<false>()); t[1] = (char*)r1 + 2; });
                break;
            case 5: case 6: case 7:
                if(a->v->exclusive() && k == 5 && b && b->v->exclusive()) break;
                attach(*a, k - 5, true);
                behave(*a, k - 5);
                break;
            case 8: case 9:
                if(b && !(b->v->exclusive() && a->v->exclusive())) { attach(*b, k - 8, true); behave(*b, k - 8); }
                break;
            case 10: {
                auto& e = a->envs[1];
                if(!e.env) break;
                auto t = *e.env->functions;
                t.GetVersion = reinterpret_cast<jint(*)(JNIEnv*)>(reference(a->v->kind).env[VERSION]);
                t.reserved2 = (char*)t.reserved2 + 4;
                overrideEnv(E(e.env), t);
                e.expect[VERSION] = (void*)t.GetVersion;
                e.expect[2] = (void*)t.reserved2;
                behave(*a, 1);
                break;
            }
            case 11: {
                auto& e = a->envs[0];
                if(!e.env) break;
                auto t = *e.env->functions;
                t.reserved0 = nullptr;
                t.reserved2 = (char*)t.reserved2 + 8;
                overrideEnv(E(e.env), t);
                e.expect[2] = (void*)t.reserved2;
                behave(*a, 0);
                break;
            }
            case 12: {
                // Refused as a whole
                for(auto p : {&a->envs[0], &a->envs[1]}) if(p->env) {
                    auto t = *p->env->functions;
                    t.reserved0 = p == &a->envs[0] ? (void*)a->v->vm : (void*)((char*)E(p->env) + 8);
                    t.reserved2 = (void*)0x77;
                    t.FindClass = nullptr;
                    bool refused = false;
                    try { overrideEnv(E(p->env), t); } catch(const std::exception&) { refused = true; }
                    MC_CHECK(refused, "refused", "the identity of an environment can be replaced");
                }
                auto t = *a->v->jvm->functions;
                t.reserved0 = (char*)t.reserved0 + 8;
                t.AttachCurrentThread = nullptr;
                bool refused = false;
                try { overrideVM(a->v->vm, t); } catch(const std::exception&) { refused = true; }
                MC_CHECK(refused, "refused", "the identity of a VM can be replaced");
                break;
            }
            case 13: case 14: {
                if(achain == CHAIN) break;
                int i = achain++;
                auto& o = k == 14 && b ? *b : *a;
                auto t = *o.v->jvm->functions;
                prevAttach[i] = t.AttachCurrentThread;
                t.AttachCurrentThread = attaches[i];
                if(i % 2) t.reserved0 = nullptr;
                overrideVM(o.v->vm, t);
                o.expectVM[ATTACH] = (void*)attaches[i];
                on(1, [&] {
                    called.clear();
                    JNIEnv* e = nullptr;
                    o.v->jvm->AttachCurrentThread(&e, nullptr);
                    MC_FLAG(called.size() && called[0] == 200 + i, "behaviour", "the attach function of the VM ran %d functions", (int)called.size());
                    if(!o.envs[1].env) { o.envs[1].env = e; o.envs[1].expect = o.expected(); }
                });
                break;
            }
            }
        }
        void end() {
            for(auto o : {b.get(), a.get()}) if(o) for(int t = 1; t < 3; ++t) if(o->envs[t].env) on(t, [&] { o->v->jvm->DetachCurrentThread(); });
        }
    };
    void histories(int kind, bool two) {
        int n = mc::bound(4, 3, 5, 4), other = two ? choose(3) : -1;
        for(int k = 0; k < KINDS; ++k) reference(k);
        Run r;
        r.a.reset(new Owned(kind));
        if(two) r.b.reset(new Owned(other));
        struct End { Run& r; ~End() { r.end(); } } end{r};
        r.attach(*r.a, 0, false);
        if(r.b) r.attach(*r.b, 0, false);
        std::string s = std::to_string(kind) + "," + std::to_string(other);
        for(int i = 0; i < n; ++i) {
            // Operations on the second VM and on the third thread take turns
            int k = choose(OPS);
            if(!two && (k == 1 || k == 8 || k == 9 || k == 14)) return;
            mc::log("operation %d", k);
            r.op(k);
            mc::transition();
            check(*r.a);
            if(r.b) check(*r.b);
            s += "," + std::to_string(k);
            mc::state(s);
        }
        for(int t = 0; t < 3; ++t) { behave(*r.a, t); if(r.b) behave(*r.b, t); }
    }
    // Each function alone
    void slots() {
        int kind = choose(KINDS), slot = choose(SLOTS), how = choose(3);
        for(int k = 0; k < KINDS; ++k) reference(k);
        Owned o(kind), p(kind == 0 ? 1 : 0);
        void* mark = (void*)(0x1000 + slot * 16);
        auto set = [=](JNINativeInterface& n) { memcpy((char*)&n + slot * sizeof(void*), &mark, sizeof(mark)); };
        mc::log("VM %d function %d way %d", kind, slot, how);
        if(how < 2) {
            o.v->hook(set);
            if(how) o.v->hook([](JNINativeInterface&) {});
        }
        Table expect = reference(kind).env, other = reference(p.v->kind).env, got, gotOther;
        if(slot) expect[slot] = mark;
        if(kind == 2 && how < 2) expect[3] = (void*)0x33;
        bool same = false, refused = false;
        peer(1).run([&] {
            JNIEnv* e, *f;
            o.v->jvm->AttachCurrentThread(&e, nullptr);
            p.v->jvm->AttachCurrentThread(&f, nullptr);
            if(how == 2) {
                auto n = *e->functions;
                set(n);
                try { overrideEnv(E(e), n); } catch(const std::exception&) { refused = true; }
            }
            got = table(*e->functions);
            gotOther = table(*f->functions);
            same = E(e)->GetVM() == o.v->vm && E(E(e)->GetJNIEnv()) == E(e);
            o.v->jvm->DetachCurrentThread();
            p.v->jvm->DetachCurrentThread();
        });
        for(int s = 1; s < SLOTS; ++s) {
            MC_CHECK(got[s] == expect[s], "table", "function %d after changing function %d", s, slot);
            MC_CHECK(gotOther[s] == other[s], "table", "function %d of another VM after changing function %d", s, slot);
        }
        MC_CHECK(refused == (how == 2 && slot == 0), "refused", "changing function %d", slot);
        MC_CHECK(same, "identity", "after changing function %d", slot);
        mc::state(std::to_string(kind) + "," + std::to_string(slot) + "," + std::to_string(how));
    }
    void invokeSlots() {
        int kind = choose(KINDS), slot = choose(ISLOTS), zero = choose(2);
        for(int k = 0; k < KINDS; ++k) reference(k);
        Owned o(kind), p(kind == 0 ? 1 : 0);
        auto n = *o.v->jvm->functions;
        if(zero) n.reserved0 = nullptr;
        void* mark = (void*)(0x1000 + slot * 16);
        memcpy((char*)&n + slot * sizeof(void*), &mark, sizeof(mark));
        ITable expect = table(*o.v->jvm->functions);
        if(slot) expect[slot] = mark;
        bool refused = false;
        try { overrideVM(o.v->vm, n); } catch(const std::exception&) { refused = true; }
        MC_CHECK(refused == (slot == 0), "refused", "changing function %d of a VM", slot);
        MC_CHECK(table(*o.v->jvm->functions) == expect && table(*o.v->vm->GetJavaVM()->functions) == expect, "invoke table", "after changing function %d of a VM", slot);
        MC_CHECK(VM::FromJavaVM(o.v->jvm) == o.v->vm && VM::FromJavaVM(o.v->vm->GetJavaVM()) == o.v->vm, "identity", "after changing function %d of a VM", slot);
        ITable other = table(*p.v->jvm->functions);
        for(int s = 1; s < ISLOTS; ++s) MC_CHECK(other[s] == reference(p.v->kind).vm[s], "invoke table", "function %d of another VM", s);
    }
    // Many hooks, every one sees what the others before did
    void many() {
        int kind = choose(KINDS), n = chooseSize(mc::bound(513, 129, 4097, 513)), later = choose(2);
        Owned o(kind);
        uintptr_t expect = 0;
        auto add = [&](int i) { o.v->hook([i](JNINativeInterface& n) { n.reserved1 = (void*)((uintptr_t)n.reserved1 * 31 + i + 1); }); expect = expect * 31 + i + 1; };
        for(int i = 0; i < n; ++i) add(i);
        for(int t = 1; t < 3; ++t) {
            void* got = nullptr;
            peer(t).run([&] {
                JNIEnv* e;
                o.v->jvm->AttachCurrentThread(&e, nullptr);
                got = e->functions->reserved1;
                o.v->jvm->DetachCurrentThread();
            });
            MC_CHECK((uintptr_t)got == expect, "order", "%d hooks in the environment of thread %d", n, t);
            if(later) add(n + t);
        }
    }
    // Hooks added before the first environment
    void early() {
        int chainLength = choose(CHAIN + 1);
        int setups = 0;
        uintptr_t expect = 0;
        auto v = std::make_shared<Baron::Jvm>([&](Baron::Jvm* j) {
            setups++;
            for(int i = 0; i < chainLength; ++i) {
                j->AddHook([i](JNINativeInterface& n) { n.reserved1 = (void*)((uintptr_t)n.reserved1 * 31 + i + 1); prevFind[i] = n.FindClass; n.FindClass = finds[i]; });
                expect = expect * 31 + i + 1;
            }
            j->denyClass("no/Such");
        });
        MC_CHECK(setups == 1, "setup", "ran %d times", setups);
        auto test = [&] {
            JNIEnv* e;
            v->AttachCurrentThread(&e, nullptr);
            MC_FLAG((uintptr_t)e->functions->reserved1 == expect, "order", "hooks of the first environment");
            called.clear();
            MC_FLAG(!e->FindClass("no/Such") && (int)called.size() == chainLength, "behaviour", "FindClass ran %d functions", (int)called.size());
            for(int i = 0; i < (int)called.size(); ++i) MC_FLAG(called[i] == 100 + chainLength - 1 - i, "behaviour", "FindClass ran function %d", called[i]);
            MC_FLAG(e->FindClass("some/Such") != nullptr, "behaviour", "FindClass");
        };
        test();
        peer(1).run([&] { test(); v->DetachCurrentThread(); });
    }
    // Handles of nothing
    void nothing() {
        bool a = false, b = false;
        try { VM::FromJavaVM(nullptr); } catch(const std::exception&) { a = true; }
        try { ENV::FromJNIEnv(nullptr); } catch(const std::exception&) { b = true; }
        MC_CHECK(a && b, "identity", "a handle of nothing leads somewhere");
    }
    static int init = [] {
        mc::scenario("plain", [] { histories(0, false); });
        mc::scenario("strict", [] { histories(1, false); });
        mc::scenario("own", [] { histories(2, false); });
        mc::scenario("fake-jni", [] { histories(3, false); });
        mc::scenario("baron", [] { histories(4, false); });
        mc::scenario("two plain", [] { histories(0, true); });
        mc::scenario("two own", [] { histories(2, true); });
        mc::scenario("two fake-jni", [] { histories(3, true); });
        mc::scenario("two baron", [] { histories(4, true); });
        mc::scenario("functions", slots, 3);
        mc::scenario("functions of VMs", invokeSlots, 3);
        mc::scenario("many", many, 3);
        mc::scenario("early", early);
        mc::scenario("nothing", nothing);
        return 0;
    }();
}
