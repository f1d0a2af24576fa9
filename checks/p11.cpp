// P11: virtual and non-virtual dispatch over class hierarchies
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct A1 : Extends<> {}; struct A2 : Extends<A1> {}; struct A3 : Extends<A2> {}; struct A4 : Extends<A3> {}; struct AS : Extends<A1> {};
    struct B1 : Extends<> {}; struct B2 : Extends<B1> {}; struct B3 : Extends<B1> {}; struct B4 : Extends<B2, B3> {}; struct BS : Extends<B2> {};
    struct C1 : Extends<> {}; struct C2 : Extends<> {}; struct C3 : Extends<C1, C2> {}; struct C4 : Extends<C3> {}; struct CS : Extends<C2> {};
    struct D1 : Extends<> {}; struct D2 : Extends<D1> {}; struct D3 : Extends<> {}; struct D4 : Extends<D2, D3> {}; struct DS : Extends<D1, D3> {};
    struct E1 : Extends<> {}; struct E2 : Extends<> {}; struct E3 : Extends<> {}; struct E4 : Extends<E1, E2, E3> {}; struct ES : Extends<E2> {};
    struct F1 : Extends<> {}; struct F2 : Extends<> {}; struct F3 : Extends<F2, F1> {}; struct F4 : Extends<F1, F3> {}; struct FS : Extends<F1> {};
    struct U : Extends<> {};

    struct Ran { int calls; int id; void* self; jint arg; } ran;
    void note(int id, void* self, jint arg) { ran.calls++; ran.id = id; ran.self = self; ran.arg = arg; }
    template<class R> R res(int id) { return value<R>(id); }
    template<> void res<void>(int) {}
    jobject retObj[64];
    template<> jobject res<jobject>(int id) { return retObj[id & 63]; }

    struct Ops {
        std::shared_ptr<Class> (*reg)(ENV*, const char*);
        std::shared_ptr<Object> (*make)();
        jobject (*ref)(JNIEnv*, const std::shared_ptr<Object>&);
        void (*hook)(ENV*, Class*, int);
        void (*hookOther)(ENV*, Class*, int);
    };
    template<class T> Ops ops() {
        return {
            [](ENV* e, const char* n) { return e->GetClass<T>(n); },
            []() -> std::shared_ptr<Object> { return std::make_shared<T>(); },
            [](JNIEnv* e, const std::shared_ptr<Object>& o) { return local(e, std::dynamic_pointer_cast<T>(o)); },
            [](ENV* e, Class* c, int id) { c->HookInstanceFunction(e, "m", [id](T* self, jint x) -> jint { note(id, static_cast<Object*>(self), x); return id; }); },
            [](ENV* e, Class* c, int id) { c->HookInstanceFunction(e, "m", [id](T* self, jlong x) -> jint { note(id, static_cast<Object*>(self), -1); return id; }); },
        };
    }
    struct Hierarchy {
        const char* name;
        Ops ops[5];
        std::vector<int> parents[5];
    };
    constexpr int N = 4, OBJ = 6, UNREL = 5;
    const Hierarchy& hierarchy(int i) {
        static const Hierarchy h[] = {
            {"chain", {ops<A1>(), ops<A2>(), ops<A3>(), ops<A4>(), ops<AS>()}, {{OBJ}, {0}, {1}, {2}, {0}}},
            {"diamond", {ops<B1>(), ops<B2>(), ops<B3>(), ops<B4>(), ops<BS>()}, {{OBJ}, {0}, {0}, {1, 2}, {1}}},
            {"two roots", {ops<C1>(), ops<C2>(), ops<C3>(), ops<C4>(), ops<CS>()}, {{OBJ}, {OBJ}, {0, 1}, {2}, {1}}},
            {"branches", {ops<D1>(), ops<D2>(), ops<D3>(), ops<D4>(), ops<DS>()}, {{OBJ}, {0}, {OBJ}, {1, 2}, {0, 2}}},
            {"three bases", {ops<E1>(), ops<E2>(), ops<E3>(), ops<E4>(), ops<ES>()}, {{OBJ}, {OBJ}, {OBJ}, {0, 1, 2}, {1}}},
            {"base of a base", {ops<F1>(), ops<F2>(), ops<F3>(), ops<F4>(), ops<FS>()}, {{OBJ}, {OBJ}, {1, 0}, {0, 2}, {0}}},
        };
        return h[i];
    }
    constexpr int HIERARCHIES = 6;
    struct Strict : VM { Strict() : VM(false, true) {} };

    int nativeRan;
    jint JNICALL nativeM(JNIEnv*, jobject, jint) { nativeRan++; return -7; }

    struct World {
        const Hierarchy& h;
        VM vm;
        JNIEnv* env;
        ENV* e;
        std::shared_ptr<Class> cls[OBJ + 1];
        jclass jc[OBJ + 1];
        std::shared_ptr<Object> objs[N + 1];
        jobject refs[N + 1];
        // Model: the implementation of each class, -1 without one
        int impl[OBJ + 1];
        int next = 0;
        World(const Hierarchy& h, bool strict) : h(h), vm(false, strict), env(vm.GetJNIEnv()), e(E(env)) {
            static const char* names[] = {"p/K0", "p/K1", "p/q/K2", "p/K3", "K4"};
            for(int i = 0; i <= N; ++i) cls[i] = h.ops[i].reg(e, names[i]);
            cls[UNREL] = e->GetClass<U>("p/U");
            cls[OBJ] = e->GetClass("java/lang/Object");
            for(int i = 0; i <= OBJ; ++i) { jc[i] = (jclass)(Object*)cls[i].get(); impl[i] = -1; }
            // Other members of the classes do not matter
            static jint data;
            for(int i = 1; i <= N; i += 2) {
                cls[i]->Hook(e, "m", &data);
                cls[i]->HookInstanceGetterFunction(e, "m", []() -> jint { return 0; });
                cls[i]->Hook(e, "<init>", [](jint x) -> std::shared_ptr<Object> { note(1003, nullptr, x); return nullptr; });
            }
            for(int i = 0; i <= N; ++i) { objs[i] = h.ops[i].make(); refs[i] = h.ops[i].ref(env, objs[i]); }
        }
        int resolve(int c) const {
            if(impl[c] >= 0) return impl[c];
            if(c < UNREL) for(int p : h.parents[c]) { int r = resolve(p); if(r >= 0) return r; }
            return -1;
        }
        bool isA(int c, int d) const {
            if(c == d) return true;
            if(c < UNREL) for(int p : h.parents[c]) if(isA(p, d)) return true;
            return false;
        }
        void hook(int c) {
            int id = next++;
            if(c == OBJ) cls[c]->HookInstanceFunction(e, "m", [id](Object* self, jint x) -> jint { note(id, self, x); return id; });
            else if(c == UNREL) cls[c]->HookInstanceFunction(e, "m", [id](U* self, jint x) -> jint { note(id, static_cast<Object*>(self), x); return id; });
            else h.ops[c].hook(e, cls[c].get(), id);
            impl[c] = id;
            log("implementation %d in class %d", id, c);
        }
        void hookStatic(int c) {
            cls[c]->Hook(e, "m", [](jint x) -> jint { note(1000, nullptr, x); return 1000; });
            log("static in class %d", c);
        }
        void hookOther(int c) {
            if(c == OBJ) cls[c]->HookInstanceFunction(e, "m", [](Object* self, jlong x) -> jint { note(1001, self, -1); return 1001; });
            else h.ops[c].hookOther(e, cls[c].get(), 1001);
            cls[c]->HookInstanceFunction(e, "mm", [](Object* self, jint x) -> jint { note(1002, self, -1); return 1002; });
            cls[c]->HookInstanceFunction(e, "m", [](Object* self, jint x) -> jlong { note(1004, self, x); return 1004; });
            cls[c]->HookInstanceFunction(e, "M", [](Object* self, jint x) -> jint { note(1005, self, x); return 1005; });
            cls[c]->HookInstanceFunction(e, "m", [](Object* self, jint x, jint y) -> jint { note(1006, self, x); return 1006; });
            log("other signature in class %d", c);
        }
        void native(int c, bool on) {
            JNINativeMethod m = {(char*)"m", (char*)"(I)I", (void*)nativeM};
            if(on) env->RegisterNatives(jc[c], &m, 1);
            else env->UnregisterNatives(jc[c]);
            log("%s native in class %d", on ? "register" : "unregister", c);
        }
        jmethodID lookup(int c) { return env->GetMethodID(jc[c], "m", "(I)I"); }
        int turn = 0;
        void expect(const char* how, int want, jint got, int recv, int l, int n, jint arg) {
            int d = want < 0 ? 0 : want;
            MC_CHECK(ran.calls == (want >= 0), "calls", "%s, receiver %d, id of %d, class %d: %d implementations ran (last %d), expected %d", how, recv, l, n, ran.calls, ran.id, want);
            if(want >= 0) {
                MC_CHECK(ran.id == want, "implementation", "%s, receiver %d, id of %d, class %d: ran %d instead of %d", how, recv, l, n, ran.id, want);
                MC_CHECK(ran.self == objs[recv].get(), "receiver", "%s, receiver %d, id of %d, class %d", how, recv, l, n);
                MC_CHECK(ran.arg == arg, "argument", "%s", how);
            }
            MC_CHECK(got == d, "result", "%s, receiver %d, id of %d, class %d: %d instead of %d", how, recv, l, n, got, d);
            MC_CHECK(!nativeRan, "native", "%s ran the native", how);
            MC_CHECK(!env->ExceptionCheck(), "exception", "%s, receiver %d, id of %d, class %d", how, recv, l, n);
            mc::transition();
        }
        void callAll(jmethodID* ids) {
            for(int r = 0; r <= N; ++r) for(int l = 0; l <= OBJ; ++l) {
                if(!isA(r, l)) continue;
                jint arg = 4711 + ++turn;
                jvalue a[1];
                a[0].i = arg;
                ran = {};
                nativeRan = 0;
                jint got;
                switch(turn % 3) {
                case 0: got = env->CallIntMethodA(refs[r], ids[l], a); break;
                case 1: got = env->CallIntMethod(refs[r], ids[l], arg); break;
                default: { VaArgs va; va.build({{false, (uint32_t)arg}}, 3); got = va.with([&](va_list x) { return env->CallIntMethodV(refs[r], ids[l], x); }); }
                }
                expect("virtual", ids[l] ? resolve(r) : -1, got, r, l, -1, arg);
                for(int n = 0; n <= OBJ; ++n) {
                    if(!isA(r, n) || !isA(n, l)) continue;
                    arg++;
                    a[0].i = arg;
                    ran = {};
                    switch((turn + n) % 3) {
                    case 0: got = env->CallNonvirtualIntMethodA(refs[r], jc[n], ids[l], a); break;
                    case 1: got = env->CallNonvirtualIntMethod(refs[r], jc[n], ids[l], arg); break;
                    default: { VaArgs va; va.build({{false, (uint32_t)arg}}, 4); got = va.with([&](va_list x) { return env->CallNonvirtualIntMethodV(refs[r], jc[n], ids[l], x); }); }
                    }
                    expect("non-virtual", ids[l] ? resolve(n) : -1, got, r, l, n, arg);
                }
            }
        }
        void state() {
            uint64_t s = mc::mix(7, (uint64_t)(h.name[0] + h.name[3]));
            for(int i : impl) s = mc::mix(s, i);
            mc::state(s);
        }
    };

    // Every assignment of what each class has of the method
    void subsets() {
        int hi = choose(HIERARCHIES);
        bool strict = choose(2);
        int order = choose(3);
        World w(hierarchy(hi), strict);
        enum { None, Impl, Declared, Static, Native, Other };
        int st[OBJ + 1] = {};
        log("hierarchy %s, %s, order %d", w.h.name, strict ? "strict" : "permissive", order);
        int kinds = mc::deep() || mc::thorough() ? 6 : 4;
        for(int i = 0; i < N; ++i) {
            st[i] = choose(kinds);
        }
        bool sibling = true;
        st[OBJ] = choose(2);
        w.hook(UNREL);
        w.env->PushLocalFrame(0);
        jmethodID ids[OBJ + 1] = {}, early[OBJ + 1] = {};
        if(!strict) for(int i = N - 1; i >= 0; --i) if(st[i] == Declared) w.lookup(i);
        if(order == 1) for(int i = OBJ; i >= 0; --i) early[i] = w.lookup(i == OBJ ? OBJ : OBJ - 1 - i);
        if(order == 1) for(int i = 0; i <= OBJ; ++i) early[i] = w.lookup(i);
        if(order == 2) for(int i = N; i >= 0; --i) early[i] = w.lookup(i);
        if(order == 2) early[OBJ] = w.lookup(OBJ), early[UNREL] = w.lookup(UNREL);
        if(sibling) w.hook(N);
        for(int i = 0; i <= OBJ; ++i) {
            if(i == N || i == UNREL) continue;
            switch(st[i]) {
            case Impl: w.hook(i); break;
            case Static: w.hookStatic(i); break;
            case Native: w.native(i, true); break;
            case Other: w.hookOther(i); break;
            }
        }
        if(order) w.callAll(early);
        for(int i = 0; i <= OBJ; ++i) ids[i] = w.lookup(i);
        w.callAll(ids);
        w.state();
    }
    // Implementations and natives come, are replaced and go between the calls
    void histories() {
        int hi = choose(HIERARCHIES);
        bool strict = choose(2);
        World w(hierarchy(hi), strict);
        log("hierarchy %s, %s", w.h.name, strict ? "strict" : "permissive");
        w.hook(UNREL);
        int n = mc::bound(3, 2, 4, 3);
        jmethodID ids[OBJ + 1] = {};
        for(int step = 0; step < n; ++step) {
            int c = choose(N + 2);
            if(c == N + 1) c = OBJ;
            switch(choose(5)) {
            case 0: w.hook(c); break;
            case 1: w.hookStatic(c); break;
            case 2: w.lookup(c); log("look up in class %d", c); break;
            case 3: w.native(c, true); break;
            case 4: w.native(c, false); break;
            }
            w.env->PushLocalFrame(0);
            // Ids are kept from their first lookup on
            for(int i = 0; i <= OBJ; ++i) {
                jmethodID now = nullptr;
                if(!strict && step % 2 == 0 && !ids[i]) continue;
                now = w.lookup(i);
                if(!ids[i]) ids[i] = now;
            }
            w.callAll(ids);
            w.env->PopLocalFrame(nullptr);
            w.state();
        }
        for(int i = OBJ; i >= 0; --i) if(!ids[i]) ids[i] = w.lookup(i);
        w.callAll(ids);
    }

    // All result types and call forms
    template<class R> void typed(int hi) {
        World w(hierarchy(hi), false);
        for(int i = 0; i < 64; ++i) retObj[i] = i % 5 == 4 ? nullptr : w.refs[i % (N + 1)];
        std::string sig = std::string("(JD)") + (JT<R>::sig == 'L' ? "Ljava/lang/Object;" : std::string(1, JT<R>::sig).data());
        jlong l0 = 0x123456789abcdef0ll;
        jdouble d0 = 2.5;
        bool has[OBJ + 1] = {};
        // An id declared below every implementation
        jmethodID ids[OBJ + 1] = {};
        bool early = choose(2);
        if(early) for(int i = N; i >= 0; --i) ids[i] = w.env->GetMethodID(w.jc[i], "t", sig.data());
        for(int i = 0; i <= OBJ; ++i) {
            if(i < N || i == OBJ) if(!choose(2)) continue;
            int id = w.impl[i] = w.next++;
            w.cls[i]->HookInstanceFunction(w.e, "t", [id, l0, d0](Object* self, jlong l, jdouble d) -> R { note(id, self, l == l0 && d == d0 ? 1 : 0); return res<R>(id); });
        }
        if(!early) for(int i = 0; i <= N; ++i) ids[i] = w.env->GetMethodID(w.jc[i], "t", sig.data());
        jvalue a[2];
        a[0].j = l0;
        a[1].d = d0;
        uint64_t db;
        memcpy(&db, &d0, 8);
        auto verify = [&](int form, int want, int recv, int l, int n, bool equal) {
            MC_CHECK(ran.calls == (want >= 0) && (want < 0 || (ran.id == want && ran.self == w.objs[recv].get() && ran.arg == 1)), "typed", "form %d of %s, receiver %d, id of %d, class %d: %d calls, ran %d instead of %d", form, JT<R>::name(), recv, l, n, ran.calls, ran.id, want);
            if(want >= 0) MC_CHECK(equal, "typed-result", "form %d of %s, receiver %d, id of %d, class %d", form, JT<R>::name(), recv, l, n);
            MC_CHECK(!w.env->ExceptionCheck(), "exception", "%s", JT<R>::name());
            mc::transition();
        };
        for(int r = 0; r <= N; ++r) for(int l = 0; l <= N; ++l) {
            if(!w.isA(r, l)) continue;
            for(int form = 0; form < 3; ++form) for(int n = -1; n <= OBJ; ++n) {
                if(n >= 0 && (!w.isA(r, n) || !w.isA(n, l))) continue;
                ran = {};
                w.env->PushLocalFrame(0);
                auto call = [&]() -> R {
                    VaArgs va;
                    va.build({{false, (uint64_t)l0}, {true, db}}, n < 0 ? 3 : 4);
                    if(n < 0) switch(form) {
                    case 0: return JT<R>::call(w.env, w.refs[r], ids[l], l0, d0);
                    case 1: return va.with([&](va_list x) { return JT<R>::callV(w.env, w.refs[r], ids[l], x); });
                    default: return JT<R>::callA(w.env, w.refs[r], ids[l], a);
                    } else switch(form) {
                    case 0: return JT<R>::nv(w.env, w.refs[r], w.jc[n], ids[l], l0, d0);
                    case 1: return va.with([&](va_list x) { return JT<R>::nvV(w.env, w.refs[r], w.jc[n], ids[l], x); });
                    default: return JT<R>::nvA(w.env, w.refs[r], w.jc[n], ids[l], a);
                    }
                };
                int want = w.resolve(n < 0 ? r : n);
                if constexpr(std::is_void<R>::value) {
                    call();
                    verify(form, want, r, l, n, true);
                } else {
                    R got = call();
                    R exp{};
                    if(want >= 0) exp = res<R>(want);
                    verify(form, want, r, l, n, want < 0 || same(got, exp));
                }
                w.env->PopLocalFrame(nullptr);
            }
        }
        w.state();
    }
    void types() {
        int hi = choose(HIERARCHIES);
        switch(choose(10)) {
        case 0: typed<jint>(hi); break;
        case 1: typed<void>(hi); break;
        case 2: typed<jobject>(hi); break;
        case 3: typed<jboolean>(hi); break;
        case 4: typed<jbyte>(hi); break;
        case 5: typed<jchar>(hi); break;
        case 6: typed<jshort>(hi); break;
        case 7: typed<jlong>(hi); break;
        case 8: typed<jfloat>(hi); break;
        case 9: typed<jdouble>(hi); break;
        }
    }
    // Objects without a native type of their own, made by default results and constructors
    void dummies() {
        VM vm;
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        auto base = e->GetClass<A1>("p/K0");
        auto jbase = (jclass)(Object*)base.get();
        auto d = std::make_shared<A2>();
        bool given = choose(2), hookDummy = choose(2), hookBase = choose(2), early = choose(2);
        // The class of the object is a plain one, or the registered one
        auto plain = given ? e->GetClass("p/Plain") : e->GetClass<A2>("p/K1");
        if(given) d->clazz = plain;
        auto jplain = (jclass)(Object*)plain.get();
        jobject o = local(env, d);
        jmethodID a = nullptr, b = nullptr;
        if(early) { a = env->GetMethodID(jplain, "m", "()I"); b = env->GetMethodID(jbase, "m", "()I"); }
        if(hookDummy) plain->HookInstanceFunction(e, "m", [](Object* self) -> jint { note(1, self, 0); return 1; });
        if(hookBase) base->HookInstanceFunction(e, "m", [](A1* self) -> jint { note(2, static_cast<Object*>(self), 0); return 2; });
        if(!early) { a = env->GetMethodID(jplain, "m", "()I"); b = env->GetMethodID(jbase, "m", "()I"); }
        int want = hookDummy ? 1 : !given && hookBase ? 2 : 0;
        ran = {};
        MC_CHECK(env->CallIntMethod(o, a) == want, "dummy", "virtual call: ran %d instead of %d", ran.id, want);
        MC_CHECK(ran.calls == (want > 0) && (!want || ran.self == static_cast<Object*>(d.get())), "dummy", "calls");
        ran = {};
        MC_CHECK(env->CallNonvirtualIntMethod(o, jplain, a) == want, "dummy", "non-virtual call: ran %d instead of %d", ran.id, want);
        if(!given) {
            ran = {};
            MC_CHECK(env->CallIntMethod(o, b) == want, "dummy", "virtual call through the base: ran %d instead of %d", ran.id, want);
            ran = {};
            MC_CHECK(env->CallNonvirtualIntMethod(o, jbase, b) == (hookBase ? 2 : 0), "dummy", "non-virtual call of the base: ran %d", ran.id);
        }
        mc::transition();
    }
    // Long chains of classes are walked to their end, long lists of other members to the last
    template<int D> struct Deep : Extends<Deep<D - 1>> {};
    template<> struct Deep<0> : Extends<> {};
    template<int D> struct Reg { static void reg(ENV* e, std::vector<std::shared_ptr<Class>>& v) { Reg<D - 1>::reg(e, v); v.push_back(e->GetClass<Deep<D>>(("d/C" + std::to_string(D)).data())); } };
    template<> struct Reg<-1> { static void reg(ENV*, std::vector<std::shared_ptr<Class>>&) {} };
    constexpr int DEPTH = 40;
    void deepChain() {
        VM vm;
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        std::vector<std::shared_ptr<Class>> cls;
        Reg<DEPTH>::reg(e, cls);
        int at = choose(DEPTH + 1), second = choose(3) * 7;
        int many = chooseSize(mc::bound(65, 17, 257, 65));
        for(int i = 0; i < many; ++i) for(int c : {at, DEPTH}) cls[c]->HookInstanceFunction(e, "other" + std::to_string(i), [](Object* self) -> jint { note(99, self, 0); return 99; });
        cls[at]->HookInstanceFunction(e, "m", [](Object* self) -> jint { note(1, self, 0); return 1; });
        bool two = second <= DEPTH && second < at;
        if(two) cls[second]->HookInstanceFunction(e, "m", [](Object* self) -> jint { note(2, self, 0); return 2; });
        auto o = std::make_shared<Deep<DEPTH>>();
        jobject jo = local(env, o);
        auto id = env->GetMethodID((jclass)(Object*)cls[DEPTH].get(), "m", "()I");
        ran = {};
        MC_CHECK(env->CallIntMethod(jo, id) == 1 && ran.calls == 1 && ran.self == static_cast<Object*>(o.get()), "deep", "virtual, implementation at %d: ran %d", at, ran.id);
        auto id0 = env->GetMethodID((jclass)(Object*)cls[two ? second : at].get(), "m", "()I");
        ran = {};
        MC_CHECK(env->CallIntMethod(jo, id0) == 1, "deep", "virtual through a base, implementation at %d: ran %d", at, ran.id);
        for(int n : {at, DEPTH, (at + DEPTH) / 2, at - 1}) {
            if(n < 0 || (n < at && !(two && n >= second))) continue;
            ran = {};
            int want = n >= at ? 1 : 2;
            MC_CHECK(env->CallNonvirtualIntMethod(jo, (jclass)(Object*)cls[n].get(), id0) == want, "deep", "non-virtual of %d, implementation at %d: ran %d", n, at, ran.id);
        }
        mc::transition();
    }
}
static int init = [] {
    mc::scenario("subsets", subsets, 3);
    mc::scenario("histories", histories, 3);
    mc::scenario("types", types, 2);
    mc::scenario("dummies", dummies, 1);
    mc::scenario("deep", deepChain, 1);
    return 0;
}();
