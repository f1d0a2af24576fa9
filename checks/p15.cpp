// P15: assignability, instance-of, superclass and object class over class hierarchies
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct A0 : Extends<> {}; struct A1 : Extends<A0> {}; struct A2 : Extends<A1> {}; struct A3 : Extends<A2> {}; struct A4 : Extends<A3> {};
    struct B0 : Extends<> {}; struct B1 : Extends<B0> {}; struct B2 : Extends<B0> {}; struct B3 : Extends<B1, B2> {}; struct B4 : Extends<B3> {};
    struct C0 : Extends<> {}; struct C1 : Extends<> {}; struct C2 : Extends<C0, C1> {}; struct C3 : Extends<C1, C0> {}; struct C4 : Extends<C2, C3> {};
    struct D0 : Extends<> {}; struct D1 : Extends<> {}; struct D2 : Extends<> {}; struct D3 : Extends<D0, D1, D2> {}; struct D4 : Extends<Object, D1> {};
    struct F0 : Extends<> {}; struct F1 : Extends<F0> {}; struct F2 : Extends<Object, F0> {}; struct F3 : Extends<F1, F2> {}; struct F4 : Extends<F2, F0> {};
    struct G0 : Extends<> {}; struct G1 : Extends<G0> {}; struct G2 : Extends<G0> {}; struct G3 : Extends<G1> {}; struct G4 : Extends<G2> {};
    constexpr int N = 5, OBJ = 5, DUMMY = 6, ALL = 7;

    struct Ops {
        std::shared_ptr<Class> (*reg)(ENV*, const char*);
        std::shared_ptr<Object> (*make)();
        // Hands the object out as this type
        jobject (*ref)(JNIEnv*, const std::shared_ptr<Object>&);
        // A static function returning the object as this type
        void (*hookReturn)(ENV*, Class*, std::shared_ptr<Object>*);
        void (*hookInit)(ENV*, Class*);
    };
    template<class T> Ops ops() {
        return {
            [](ENV* e, const char* n) { return e->GetClass<T>(n); },
            []() -> std::shared_ptr<Object> { auto p = std::make_shared<T>(); return std::shared_ptr<Object>(p, static_cast<Object*>(p.get())); },
            [](JNIEnv* e, const std::shared_ptr<Object>& o) { return local(e, std::dynamic_pointer_cast<T>(o)); },
            [](ENV* e, Class* c, std::shared_ptr<Object>* o) { c->Hook(e, "get", [o]() -> std::shared_ptr<T> { return std::dynamic_pointer_cast<T>(*o); }); },
            [](ENV* e, Class* c) { c->Hook(e, "<init>", []() { return std::make_shared<T>(); }); },
        };
    }
    struct Hierarchy {
        const char* name;
        Ops ops[N];
        std::vector<int> parents[N];
    };
    const Hierarchy& hierarchy(int i) {
        static const Hierarchy h[] = {
            {"chain", {ops<A0>(), ops<A1>(), ops<A2>(), ops<A3>(), ops<A4>()}, {{OBJ}, {0}, {1}, {2}, {3}}},
            {"diamond", {ops<B0>(), ops<B1>(), ops<B2>(), ops<B3>(), ops<B4>()}, {{OBJ}, {0}, {0}, {1, 2}, {3}}},
            {"crossed", {ops<C0>(), ops<C1>(), ops<C2>(), ops<C3>(), ops<C4>()}, {{OBJ}, {OBJ}, {0, 1}, {1, 0}, {2, 3}}},
            {"interfaces", {ops<D0>(), ops<D1>(), ops<D2>(), ops<D3>(), ops<D4>()}, {{OBJ}, {OBJ}, {OBJ}, {0, 1, 2}, {OBJ, 1}}},
            {"base and interface", {ops<F0>(), ops<F1>(), ops<F2>(), ops<F3>(), ops<F4>()}, {{OBJ}, {0}, {OBJ, 0}, {1, 2}, {2, 0}}},
            {"siblings", {ops<G0>(), ops<G1>(), ops<G2>(), ops<G3>(), ops<G4>()}, {{OBJ}, {0}, {0}, {1}, {2}}},
        };
        return h[i];
    }
    constexpr int HIERARCHIES = 6;

    struct World {
        const Hierarchy& h;
        VM vm;
        JNIEnv* env;
        ENV* e;
        std::shared_ptr<Class> cls[ALL];
        bool registered[ALL] = {};
        jclass handle[ALL] = {};
        struct Obj { std::shared_ptr<Object> o; jobject ref; int type, clazz; };
        std::vector<Obj> objs;
        std::shared_ptr<Object> slots[64];
        World(const Hierarchy& h, bool strict) : h(h), vm(false, strict), env(vm.GetJNIEnv()), e(E(env)) {
            cls[OBJ] = e->GetClass("java/lang/Object");
            cls[DUMMY] = e->GetClass("p/Dummy");
            registered[OBJ] = registered[DUMMY] = true;
            handle[OBJ] = env->FindClass("java/lang/Object");
            handle[DUMMY] = env->FindClass("p/Dummy");
        }
        static const char* name(int i) {
            static const char* n[] = {"p/K0", "p/K1", "p/q/K2", "K3", "p/K1$K4"};
            return n[i];
        }
        void mention(int i) { e->GetClass(name(i)); log("mention %d", i); }
        void reg(int i) {
            cls[i] = h.ops[i].reg(e, name(i));
            handle[i] = env->FindClass(name(i));
            MC_CHECK(handle[i] == (jclass)(Object*)cls[i].get(), "lookup", "class %d", i);
            registered[i] = true;
            log("register %d", i);
        }
        // Its hierarchy is known to the VM
        bool complete(int c) const {
            if(!registered[c]) return false;
            if(c < N) for(int p : h.parents[c]) if(!complete(p)) return false;
            return true;
        }
        bool isA(int c, int d) const {
            if(c == d) return true;
            if(c < N) for(int p : h.parents[c]) if(isA(p, d)) return true;
            return false;
        }
        void queries() {
            env->PushLocalFrame(0);
            for(int c = 0; c < ALL; ++c) {
                if(!complete(c)) continue;
                auto super = env->GetSuperclass(handle[c]);
                auto want = c < N ? handle[h.parents[c][0]] : nullptr;
                MC_CHECK(super == want || (super && want && env->IsSameObject(super, want)), "superclass", "of class %d (%s)", c, h.name);
                for(int d = 0; d < ALL; ++d) {
                    if(!registered[d]) continue;
                    MC_CHECK((bool)env->IsAssignableFrom(handle[c], handle[d]) == isA(c, d), "assignable", "class %d to class %d (%s), expected %d", c, d, h.name, isA(c, d));
                    mc::transition();
                }
            }
            for(size_t i = 0; i < objs.size(); ++i) {
                auto& o = objs[i];
                if(!complete(o.clazz)) continue;
                auto oc = env->GetObjectClass(o.ref);
                MC_CHECK(oc && env->IsSameObject(oc, handle[o.clazz]), "object class", "object %zu of type %d handed out as %d (%s)", i, o.type, o.clazz, h.name);
                MC_CHECK(o.o->getClassInternal(e) == cls[o.clazz], "object class in C++", "object %zu", i);
                for(int d = 0; d < ALL; ++d) if(registered[d]) {
                    MC_CHECK((bool)env->IsInstanceOf(o.ref, handle[d]) == isA(o.clazz, d), "instance", "object %zu of class %d of class %d (%s), expected %d", i, o.clazz, d, h.name, isA(o.clazz, d));
                    mc::transition();
                }
            }
            env->PopLocalFrame(nullptr);
        }
        static constexpr int WAYS = 7;
        // Gives a new object of type t to JNI for the first time, as type s where that is up to the way
        bool give(int t, int s, int way) {
            env->PushLocalFrame(0);
            jobject r = nullptr;
            int clazz = s;
            std::shared_ptr<Object> o;
            auto ref = [&](int as) { return as == OBJ ? local(env, o) : h.ops[as].ref(env, o); };
            switch(way) {
            case 0:
                o = h.ops[t].make();
                r = ref(s);
                break;
            case 1: { // As the result of a function
                if(s >= N) { env->PopLocalFrame(nullptr); return false; }
                auto slot = &slots[objs.size()];
                o = *slot = h.ops[t].make();
                h.ops[s].hookReturn(e, cls[s].get(), slot);
                r = env->CallStaticObjectMethod(handle[s], env->GetStaticMethodID(handle[s], "get", (std::string("()L") + name(s) + ";").data()));
                break;
            }
            case 2: // Made by its constructor
                if(s != t) { env->PopLocalFrame(nullptr); return false; }
                h.ops[t].hookInit(e, cls[t].get());
                r = env->NewObject(handle[t], env->GetMethodID(handle[t], "<init>", "()V"));
                o = unwrap<Object>(env, r);
                break;
            case 3: // The default object of its class
                if(s != t) { env->PopLocalFrame(nullptr); return false; }
                o = cls[t]->Instantiate(e);
                r = local(env, o);
                break;
            case 4: // Through an array of the class
                if(s != t) { env->PopLocalFrame(nullptr); return false; }
                {
                    o = h.ops[t].make();
                    auto first = ref(s);
                    auto a = env->NewObjectArray(2, handle[s], first);
                    r = env->GetObjectArrayElement(a, 1);
                }
                break;
            case 5: { // First as s, then as everything else
                o = h.ops[t].make();
                r = ref(s);
                for(int d = 0; d <= OBJ; ++d) if(isA(t, d) && complete(d)) MC_CHECK(ref(d) == r, "reference", "differs by static type");
                break;
            }
            case 6: { // First through a weak and a global reference
                o = h.ops[t].make();
                auto l = ref(s);
                auto w = env->NewWeakGlobalRef(l);
                auto g = env->NewGlobalRef(l);
                MC_CHECK(env->IsInstanceOf(g, handle[clazz]) && env->IsInstanceOf(w, handle[clazz]), "instance", "through a global reference");
                r = env->NewLocalRef(w);
                env->DeleteGlobalRef(g);
                env->DeleteWeakGlobalRef(w);
                break;
            }
            }
            MC_CHECK(r && o, "object", "none by way %d", way);
            env->PopLocalFrame(nullptr);
            r = local(env, o); // As Object, too late to change its class
            objs.push_back({o, r, t, clazz});
            log("object %zu of type %d as %d by way %d", objs.size() - 1, t, s, way);
            return true;
        }
    };

    // All orders of registration, with any classes mentioned before
    void orders() {
        auto& h = hierarchy(choose(HIERARCHIES));
        World w(h, choose(2));
        log("%s", h.name);
        int mentions = choose(1 << N);
        for(int i = 0; i < N; ++i) if(mentions & (1 << i)) w.mention(i);
        std::vector<int> left;
        for(int i = 0; i < N; ++i) left.push_back(i);
        while(!left.empty()) {
            int k = choose((int)left.size());
            int c = left[k];
            left.erase(left.begin() + k);
            w.reg(c);
            w.queries();
            if(mc::deep() || left.empty()) for(int i = 0; i < N; ++i) if(w.registered[i] && w.complete(i)) { // Registered again, without effect
                MC_CHECK(h.ops[i].reg(w.e, World::name(i)) == w.cls[i], "registration", "again gives a different class");
            }
        }
        w.queries();
        uint64_t s = 1;
        for(int i = 0; i < N; ++i) s = mc::mix(s, (uint64_t)w.registered[i] | (mentions << 4));
        mc::state(s);
    }
    // Objects handed out in all ways as all types
    void objects() {
        auto& h = hierarchy(choose(HIERARCHIES));
        World w(h, choose(2));
        bool late = choose(2);
        if(!late) for(int i = 0; i < N; ++i) w.reg(i);
        int n = mc::bound(2, 1, 2, 2);
        for(int step = 0; step < n; ++step) {
            int t = choose(N);
            if(late) { // Only what is needed, bases last
                std::function<void(int)> need = [&](int c) { if(c < N && !w.registered[c]) { w.reg(c); for(int p : h.parents[c]) need(p); } };
                need(t);
            }
            std::vector<int> as;
            for(int s = 0; s <= OBJ; ++s) if(w.isA(t, s)) as.push_back(s);
            int s = as[choose((int)as.size())];
            if(!w.give(t, s, choose(World::WAYS))) return;
            w.queries();
            mc::state(mc::mix(mc::mix(step, t), s));
        }
        if(late) { // The remaining classes change nothing
            for(int i = 0; i < N; ++i) if(!w.registered[i]) w.reg(i);
            w.queries();
        }
    }
    // All hierarchies of four classes with up to two bases in either order (the C++ compiler is the oracle)
    constexpr int base1(int i, int k) { return k == 0 ? -1 : k <= i ? k - 1 : (k - i - 1) / (i - 1); }
    constexpr int base2(int i, int k) { return k <= i ? -1 : (k - i - 1) % (i - 1) + ((k - i - 1) % (i - 1) >= base1(i, k)); }
    constexpr int HS = 2 * 5 * 10;
    constexpr int kindOf(int h, int i) { return i == 0 ? 0 : i == 1 ? h % 2 : i == 2 ? h / 2 % 5 : h / 10; }
    template<int H, int I> struct Node;
    template<int H, int A, int B> struct Bases { using type = Extends<Node<H, A>, Node<H, B>>; };
    template<int H, int A> struct Bases<H, A, -1> { using type = Extends<Node<H, A>>; };
    template<int H> struct Bases<H, -1, -1> { using type = Extends<>; };
    template<int H, int I> struct Node : Bases<H, base1(I, kindOf(H, I)), base2(I, kindOf(H, I))>::type {};
    struct Hier {
        std::shared_ptr<Class> (*reg[4])(ENV*, const char*);
        std::shared_ptr<Object> (*make[4])();
        bool sub[4][4];
    };
    template<int H, int I> void describe(Hier& h) {
        h.reg[I] = [](ENV* e, const char* n) { return e->GetClass<Node<H, I>>(n); };
        h.make[I] = []() -> std::shared_ptr<Object> { auto p = std::make_shared<Node<H, I>>(); return std::shared_ptr<Object>(p, static_cast<Object*>(p.get())); };
        h.sub[I][0] = std::is_base_of<Node<H, 0>, Node<H, I>>::value; h.sub[I][1] = std::is_base_of<Node<H, 1>, Node<H, I>>::value;
        h.sub[I][2] = std::is_base_of<Node<H, 2>, Node<H, I>>::value; h.sub[I][3] = std::is_base_of<Node<H, 3>, Node<H, I>>::value;
    }
    template<int H> Hier hier() {
        Hier h;
        describe<H, 0>(h); describe<H, 1>(h); describe<H, 2>(h); describe<H, 3>(h);
        return h;
    }
    template<int... H> const Hier& hierOf(int i, std::integer_sequence<int, H...>) {
        static const Hier h[] = {hier<H>()...};
        return h[i];
    }
    void every() {
        int n = choose(HS), order = choose(24), scheme = choose(4);
        auto& h = hierOf(n, std::make_integer_sequence<int, HS>());
        VM vm(false, choose(2));
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        std::shared_ptr<Class> c[4];
        int left[] = {0, 1, 2, 3};
        for(int i = 4, k = order; i; --i) {
            int j = k % i;
            k /= i;
            int t = left[j];
            left[j] = left[i - 1];
            // Similar names don't make classes related: siblings, other packages, nested ones, prefixes
            static const char* const names[4][4] = {{"n/N0", "n/N1", "n/N2", "n/N3"}, {"n/N", "m/N", "N", "n/m/N"}, {"n/N", "n/N$N", "n/N$N$N", "n/N$N$N$N"}, {"n/N", "n/NN", "n/NNN", "n/NNNN"}};
            c[t] = h.reg[t](e, names[scheme][t]);
        }
        auto object = env->FindClass("java/lang/Object");
        for(int a = 0; a < 4; ++a) {
            auto ja = (jclass)(Object*)c[a].get();
            auto r = local(env, h.make[a]());
            // Handed out as Object: the class is given here
            ((Object*)r)->clazz = c[a];
            for(int b = 0; b < 4; ++b) {
                auto jb = (jclass)(Object*)c[b].get();
                MC_CHECK((bool)env->IsAssignableFrom(ja, jb) == h.sub[a][b], "assignable", "hierarchy %d: %d to %d", n, a, b);
                MC_CHECK((bool)env->IsInstanceOf(r, jb) == h.sub[a][b], "instance", "hierarchy %d: %d of %d", n, a, b);
                mc::transition();
            }
            int f = base1(a, kindOf(n, a));
            MC_CHECK(env->IsSameObject(env->GetSuperclass(ja), f < 0 ? (jobject)object : (jobject)(Object*)c[f].get()), "superclass", "hierarchy %d: of %d", n, a);
            MC_CHECK(env->IsAssignableFrom(ja, object) && !env->IsAssignableFrom(object, ja) && env->IsInstanceOf(r, object), "assignable", "hierarchy %d: %d and Object", n, a);
            mc::state(n * 4 + a);
        }
    }
    // Deep and wide hierarchies
    template<int D> struct Chain : Extends<Chain<D - 1>> {};
    template<> struct Chain<0> : Extends<> {};
    template<int I> struct Leaf : Extends<> {};
    template<class S> struct Wide_;
    template<size_t... I> struct Wide_<std::index_sequence<I...>> : Extends<Leaf<0>, Leaf<(int)I + 1>...> {};
    template<int W> struct Wide : Wide_<std::make_index_sequence<W - 1>> {};
    template<int W> struct Late : Extends<Wide<W>, Leaf<W>> {};

    template<int... D> void regChain(ENV* e, std::vector<std::shared_ptr<Class>>& c, std::integer_sequence<int, D...>) {
        (c.push_back(e->GetClass<Chain<D>>(("c/C" + std::to_string(D)).data())), ...);
    }
    constexpr int DEPTH = 40, WIDTH = 20;
    void deepChain() {
        VM vm;
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        std::vector<std::shared_ptr<Class>> c;
        regChain(e, c, std::make_integer_sequence<int, DEPTH>());
        int a = choose(DEPTH), b = choose(DEPTH);
        auto ja = (jclass)(Object*)c[a].get(), jb = (jclass)(Object*)c[b].get();
        MC_CHECK((bool)env->IsAssignableFrom(ja, jb) == (a >= b), "assignable", "chain: %d to %d", a, b);
        auto super = env->GetSuperclass(ja);
        MC_CHECK(a ? super == (jclass)(Object*)c[a - 1].get() : env->IsSameObject(super, env->FindClass("java/lang/Object")), "superclass", "chain: of %d", a);
        MC_CHECK(env->IsAssignableFrom(ja, env->FindClass("java/lang/Object")), "assignable", "chain: %d to Object", a);
        auto o = c[a]->Instantiate(e);
        auto r = local(env, o);
        MC_CHECK((bool)env->IsInstanceOf(r, jb) == (a >= b), "instance", "chain: %d of %d", a, b);
        MC_CHECK(env->IsSameObject(env->GetObjectClass(r), ja), "object class", "chain: %d", a);
        mc::transition();
        mc::state(a * 1000 + b);
    }
    template<int... I> void regLeaves(ENV* e, std::vector<std::shared_ptr<Class>>& c, std::integer_sequence<int, I...>) {
        (c.push_back(e->GetClass<Leaf<I>>(("l/L" + std::to_string(I)).data())), ...);
    }
    template<int W> void wideW() {
        VM vm;
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        std::vector<std::shared_ptr<Class>> l;
        regLeaves(e, l, std::make_integer_sequence<int, WIDTH + 1>());
        auto w = e->GetClass<Wide<W>>("l/Wide");
        auto d = e->GetClass<Late<W>>("l/Late");
        auto jw = (jclass)(Object*)w.get(), jd = (jclass)(Object*)d.get();
        auto ow = local(env, std::make_shared<Wide<W>>()), od = local(env, std::make_shared<Late<W>>());
        for(int i = 0; i <= WIDTH; ++i) {
            auto jl = (jclass)(Object*)l[i].get();
            MC_CHECK((bool)env->IsAssignableFrom(jw, jl) == (i < W), "assignable", "%d bases: to base %d", W, i);
            MC_CHECK((bool)env->IsAssignableFrom(jd, jl) == (i <= W), "assignable", "%d bases: derived to base %d", W, i);
            MC_CHECK((bool)env->IsInstanceOf(ow, jl) == (i < W), "instance", "%d bases: base %d", W, i);
            MC_CHECK((bool)env->IsInstanceOf(od, jl) == (i <= W), "instance", "%d bases: derived, base %d", W, i);
            MC_CHECK(!env->IsAssignableFrom(jl, jw) && !env->IsAssignableFrom(jl, jd), "assignable", "base to derived");
            mc::transition();
        }
        MC_CHECK(env->GetSuperclass(jw) == (jclass)(Object*)l[0].get(), "superclass", "%d bases", W);
        MC_CHECK(env->GetSuperclass(jd) == jw, "superclass", "derived of %d bases", W);
        mc::state(W);
    }
    void wide() {
        switch(choose(8)) {
        case 0: wideW<1>(); break;
        case 1: wideW<2>(); break;
        case 2: wideW<3>(); break;
        case 3: wideW<4>(); break;
        case 4: wideW<7>(); break;
        case 5: wideW<8>(); break;
        case 6: wideW<16>(); break;
        case 7: wideW<WIDTH>(); break;
        }
    }
    // The classes of the objects the VM makes itself
    void builtin() {
        VM vm(false, choose(2));
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        auto c = e->GetClass<A0>("p/A");
        auto jc = (jclass)(Object*)c.get();
        c->Hook(e, "f", [](jint x) -> jint { return x; });
        c->Hook(e, "t", []() { throw std::runtime_error("x"); });
        static const char* names[] = {"java/lang/String", "java/lang/String", "java/lang/Class", "java/lang/reflect/Method", "java/lang/Throwable", "java/nio/ByteBuffer"};
        jobject o = nullptr;
        char buf[8];
        int k = choose(6);
        switch(k) {
        case 0: o = env->NewStringUTF("x"); break;
        case 1: { jchar u[] = {65}; o = env->NewString(u, 1); break; }
        case 2: o = env->GetObjectClass(local(env, std::make_shared<A0>())); break;
        case 3: o = env->ToReflectedMethod(jc, env->GetStaticMethodID(jc, "f", "(I)I"), true); break;
        case 4: env->CallStaticVoidMethod(jc, env->GetStaticMethodID(jc, "t", "()V")); o = env->ExceptionOccurred(); env->ExceptionClear(); break;
        case 5: o = env->NewDirectByteBuffer(buf, 8); break;
        }
        MC_CHECK(o, "object", "none of kind %d", k);
        auto oc = env->GetObjectClass(o);
        MC_CHECK(oc && oc == env->FindClass(names[k]), "object class", "%s", names[k]);
        for(auto n : names) MC_CHECK((bool)env->IsInstanceOf(o, env->FindClass(n)) == !strcmp(n, names[k]), "instance", "%s of %s", names[k], n);
        MC_CHECK(!env->IsInstanceOf(o, jc) && !env->IsAssignableFrom(jc, oc), "instance", "%s of an unrelated class", names[k]);
        mc::transition();
        mc::state(k);
    }
    int init = [] {
        mc::scenario("orders", orders, 3);
        mc::scenario("objects", objects, 3);
        mc::scenario("every hierarchy", every, 3);
        mc::scenario("chain", deepChain, 1);
        mc::scenario("wide", wide, 1);
        mc::scenario("builtin", builtin, 1);
        return 0;
    }();
}
