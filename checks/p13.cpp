// P13: fields in all their forms
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct Val : Tracked<> {};
    struct Val2 : Tracked<> {};
    // A field type: the JNI type it is accessed with and how values look on either side
    struct World0;
    template<class T> struct FT {
        using J = T;
        static std::string sig() { return std::string(1, JT<T>::sig); }
        static T val(World0&, int i) { return value<T>(i); }
        static J jni(World0& w, int i) { return val(w, i); }
        static bool eq(T a, T b) { return same(a, b); }
    };
    struct World0 {
        VM vm;
        JNIEnv* env;
        ENV* e;
        std::shared_ptr<Class> vcls, vcls2;
        std::shared_ptr<Val> vals[3];
        std::shared_ptr<String> strs[3];
        std::shared_ptr<jnivm::Array<jint>> arrs[3];
        jobject jvals[3], jstrs[3], jarrs[3];
        World0(bool strict) : vm(false, strict), env(vm.GetJNIEnv()), e(E(env)) {
            vcls = e->GetClass<Val>("p/Val");
            vcls2 = e->GetClass<Val2>("p/Val2");
            for(int i = 0; i < 3; ++i) {
                vals[i] = i ? std::make_shared<Val>() : nullptr;
                strs[i] = i ? std::make_shared<String>(std::string(i, 's')) : nullptr;
                arrs[i] = i ? std::make_shared<jnivm::Array<jint>>(i) : nullptr;
                jvals[i] = local(env, vals[i]);
                jstrs[i] = local(env, strs[i]);
                jarrs[i] = local(env, arrs[i]);
            }
        }
    };
    template<> struct FT<bool> {
        using J = jboolean;
        static std::string sig() { return "Z"; }
        static bool val(World0&, int i) { return i % 2; }
        static jboolean jni(World0&, int i) { return i % 2; }
        static bool eq(bool a, bool b) { return a == b; }
    };
#define OBJ(T, SIG, V, JV) template<> struct FT<std::shared_ptr<T>> { \
        using J = jobject; \
        static std::string sig() { return SIG; } \
        static std::shared_ptr<T> val(World0& w, int i) { return w.V[i % 3]; } \
        static jobject jni(World0& w, int i) { return w.JV[i % 3]; } \
        static bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return a == b; } \
    };
    OBJ(Val, "Lp/Val;", vals, jvals)
    OBJ(String, "Ljava/lang/String;", strs, jstrs)
    OBJ(jnivm::Array<jint>, "[I", arrs, jarrs)

    template<class T> struct Holder : Extends<> {
        uint64_t g0 = 0x1111111111111111ull;
        T a{};
        uint64_t g1 = 0x2222222222222222ull;
        T b{};
        uint64_t g2 = 0x3333333333333333ull;
        jlong otherA = 77;
        jbyte otherB = 5;
        uint64_t g3 = 0x4444444444444444ull;
        T viaFunction{};
        T viaSetter{};
        void setter(T v);
        bool intact() const { return g0 == 0x1111111111111111ull && g1 == 0x2222222222222222ull && g2 == 0x3333333333333333ull && g3 == 0x4444444444444444ull; }
    };
    struct Counts { int gets, sets; void* self; void* env; } counts;
    template<class T> void Holder<T>::setter(T v) { counts.sets++; counts.self = static_cast<Object*>(this); viaSetter = v; }
    template<class T> struct Statics { static T s, t; static jlong otherS; };
    template<class T> T Statics<T>::s{};
    template<class T> T Statics<T>::t{};
    template<class T> jlong Statics<T>::otherS = 99;

    enum { FA, FB, FG, FM, NINST, FS = NINST, FTT, NF };
    const char* names[] = {"a", "b", "g", "m", "s", "t"};

    template<class T> struct World : World0 {
        using H = Holder<T>;
        using F = FT<T>;
        using J = typename F::J;
        std::shared_ptr<Class> cls;
        jclass jc;
        std::shared_ptr<H> obj[2];
        jobject ref[2], glob[2];
        jfieldID id[NF];
        jfieldID otherA, otherB, otherS, undef, undefS;
        // Model
        int v[2][NINST] = {};
        int sv[NF] = {};
        World(bool strict, int order) : World0(strict) {
            Statics<T>::s = Statics<T>::t = T{};
            Statics<T>::otherS = 99;
            cls = e->GetClass<H>("p/Holder");
            jc = (jclass)(Object*)cls.get();
            for(int i = 0; i < 2; ++i) {
                obj[i] = std::make_shared<H>();
                ref[i] = local(env, obj[i]);
                glob[i] = env->NewGlobalRef(ref[i]);
            }
            if(!strict && order) lookups();
            cls->Hook(e, "a", &H::a);
            cls->Hook(e, "b", &H::b);
            // Same names, other types
            cls->Hook(e, "g", &H::otherB);
            cls->HookInstance(e, "s", &H::otherB);
            hookOthers(std::is_same<T, jlong>());
            cls->HookInstanceGetterFunction(e, "g", [](H* self) -> T { counts.gets++; counts.self = static_cast<Object*>(self); return self->viaFunction; });
            cls->HookInstanceSetterFunction(e, "g", [](H* self, T x) -> void { counts.sets++; counts.self = static_cast<Object*>(self); self->viaFunction = x; });
            cls->HookInstanceGetterFunction(e, "m", [](ENV* env, H* self) -> T { counts.gets++; counts.env = env; counts.self = static_cast<Object*>(self); return self->viaSetter; });
            cls->HookInstanceSetterFunction(e, "m", &H::setter);
            cls->Hook(e, "s", &Statics<T>::s);
            cls->HookGetterFunction(e, "t", [](Class* c) -> T { counts.gets++; counts.self = static_cast<Object*>(c); return Statics<T>::t; });
            cls->HookSetterFunction(e, "t", [](JNIEnv* env, Class* c, T x) -> void { counts.sets++; counts.env = env; counts.self = static_cast<Object*>(c); Statics<T>::t = x; });
            if(strict || !order) lookups();
            if(!std::is_same<T, jlong>::value) {
                otherA = env->GetFieldID(jc, "a", "J");
                otherS = env->GetStaticFieldID(jc, "s", "J");
            } else otherA = otherS = nullptr;
            otherB = std::is_same<T, jbyte>::value ? nullptr : env->GetFieldID(jc, "g", "B");
            undef = strict ? nullptr : env->GetFieldID(jc, "undefined", F::sig().data());
            undefS = strict ? nullptr : env->GetStaticFieldID(jc, "undefined", F::sig().data());
            MC_CHECK(F::eq(obj[0]->a, F::val(*this, start())) || true, "init", "initial");
            for(int i = 0; i < 2; ++i) for(int f = 0; f < NINST; ++f) v[i][f] = -1;
            for(int f = NINST; f < NF; ++f) sv[f] = -1;
        }
        void hookOthers(std::true_type) {}
        void hookOthers(std::false_type) {
            cls->Hook(e, "a", &H::otherA);
            cls->Hook(e, "s", &Statics<T>::otherS);
        }
        int start() { return 0; }
        void lookups() {
            for(int f = 0; f < NF; ++f) id[f] = f < NINST ? env->GetFieldID(jc, names[f], F::sig().data()) : env->GetStaticFieldID(jc, names[f], F::sig().data());
        }
        T want(int m) { return m < 0 ? T{} : F::val(*this, m); }
        J wantJ(int m) { return m < 0 ? J{} : F::jni(*this, m); }
        T& cpp(int o, int f) {
            switch(f) {
            case FA: return obj[o]->a;
            case FB: return obj[o]->b;
            case FG: return obj[o]->viaFunction;
            case FM: return obj[o]->viaSetter;
            case FS: return Statics<T>::s;
            default: return Statics<T>::t;
            }
        }
        int& model(int o, int f) { return f < NINST ? v[o][f] : sv[f]; }
        int turn = 0;
        J get(int o, int f) {
            counts = {};
            jobject r = turn++ % 2 ? glob[o] : ref[o];
            J x = f < NINST ? JT<J>::get(env, r, id[f]) : JT<J>::sget(env, jc, id[f]);
            bool fn = f == FG || f == FM || f == FTT;
            MC_CHECK(counts.gets == fn && counts.sets == 0, "calls", "reading %s called the getter %d times, the setter %d times", names[f], counts.gets, counts.sets);
            if(fn) MC_CHECK(counts.self == (f == FTT ? (Object*)cls.get() : (Object*)obj[o].get()), "object", "getter of %s called on another object", names[f]);
            if(f == FM) MC_CHECK(counts.env == e, "env", "getter of %s", names[f]);
            return x;
        }
        void set(int o, int f, int i) {
            counts = {};
            jobject r = turn++ % 2 ? glob[o] : ref[o];
            if(f < NINST) JT<J>::set(env, r, id[f], F::jni(*this, i));
            else JT<J>::sset(env, jc, id[f], F::jni(*this, i));
            bool fn = f == FG || f == FM || f == FTT;
            MC_CHECK(counts.sets == fn && counts.gets == 0, "calls", "writing %s called the setter %d times, the getter %d times", names[f], counts.sets, counts.gets);
            if(fn) MC_CHECK(counts.self == (f == FTT ? (Object*)cls.get() : (Object*)obj[o].get()), "object", "setter of %s called on another object", names[f]);
            if(f == FTT) MC_CHECK(counts.env == env, "env", "setter of %s", names[f]);
            model(o, f) = i;
        }
        void verify() {
            env->PushLocalFrame(0);
            for(int o = 0; o < 2; ++o) for(int f = 0; f < NF; ++f) {
                if(f >= NINST && o) continue;
                MC_CHECK(F::eq(cpp(o, f), want(model(o, f))), "cpp", "%s of object %d is not the value last written (%d)", names[f], o, model(o, f));
                J x = get(o, f);
                MC_CHECK(same<J>(x, wantJ(model(o, f))), "read", "reading %s of object %d gives %llx instead of %llx", names[f], o, bits(x), bits(wantJ(model(o, f))));
            }
            for(int o = 0; o < 2; ++o) {
                MC_CHECK(obj[o]->intact() && obj[o]->otherA == 77 && obj[o]->otherB == 5, "other", "another field of object %d changed", o);
                if(otherA) MC_CHECK(JT<jlong>::get(env, ref[o], otherA) == 77, "other", "field of another type");
                if(otherB) MC_CHECK(JT<jbyte>::get(env, ref[o], otherB) == 5, "other", "field of another type");
            }
            MC_CHECK(Statics<T>::otherS == 99, "other", "static field of another type changed");
            if(otherS) MC_CHECK(JT<jlong>::sget(env, jc, otherS) == 99, "other", "static field of another type");
            MC_CHECK(!env->ExceptionCheck(), "exception", "pending");
            env->PopLocalFrame(nullptr);
        }
        void undefined(int i) {
            counts = {};
            J zero{};
            JT<J>::set(env, ref[0], undef, F::jni(*this, i));
            JT<J>::sset(env, jc, undefS, F::jni(*this, i));
            J x = JT<J>::get(env, ref[0], undef), y = JT<J>::sget(env, jc, undefS);
            if constexpr(!std::is_same<J, jobject>::value) MC_CHECK(same(x, zero) && same(y, zero), "default", "unimplemented field reads %llx and %llx", bits(x), bits(y));
            else {
                // Null or a new object
                MC_CHECK((!x || (x != F::jni(*this, 1) && x != F::jni(*this, 2))) && (!y || (y != F::jni(*this, 1) && y != F::jni(*this, 2))), "default", "unimplemented field");
            }
            MC_CHECK(counts.gets == 0 && counts.sets == 0, "calls", "unimplemented field");
        }
    };
    template<class T> void history() {
        bool strict = choose(2), order = strict ? 0 : choose(2);
        World<T> w(strict, order);
        int n = mc::bound(3, 2, 3, 2), vals = mc::thorough() ? 3 : 2;
        for(int i = 0; i < n; ++i) {
            int kind = choose(NINST * 2 + 2);
            int o = kind < NINST * 2 ? kind / NINST : 0, f = kind < NINST * 2 ? kind % NINST : FS + kind - NINST * 2;
            int val = choose(vals) + 1, how = choose(2);
            if(how == 0) { w.set(o, f, val); log("JNI writes %s of object %d: %d", names[f], o, val); }
            else { w.cpp(o, f) = FT<T>::val(w, val); w.model(o, f) = val; log("C++ writes %s of object %d: %d", names[f], o, val); }
            if(i == 0) w.undefined(val);
            mc::transition();
            w.verify();
            uint64_t s = 1;
            for(auto& a : w.v) for(int x : a) s = mc::mix(s, x);
            for(int x : w.sv) s = mc::mix(s, x);
            mc::state(s);
        }
    }
    void histories() {
        switch(choose(12)) {
        case 0: history<jint>(); break;
        case 1: history<std::shared_ptr<Val>>(); break;
        case 2: history<jboolean>(); break;
        case 3: history<jbyte>(); break;
        case 4: history<jchar>(); break;
        case 5: history<jshort>(); break;
        case 6: history<jlong>(); break;
        case 7: history<jfloat>(); break;
        case 8: history<jdouble>(); break;
        case 9: history<bool>(); break;
        case 10: history<std::shared_ptr<String>>(); break;
        case 11: history<std::shared_ptr<jnivm::Array<jint>>>(); break;
        }
    }
    // All values of the narrow types, single bits and their neighbours of the wide ones
    template<class T> std::vector<T> values() {
        std::vector<T> r;
        if(sizeof(T) <= 2) { for(int i = 0; i < 1 << 8 * sizeof(T); ++i) r.push_back((T)i); }
        else for(int b = 0; b < (int)sizeof(T) * 8; ++b) for(int d = -1; d < 2; ++d) for(int inv = 0; inv < 2; ++inv) {
            uint64_t x = (1ull << b) + d;
            if(inv) x = ~x;
            T t;
            memcpy(&t, &x, sizeof(T));
            r.push_back(t);
        }
        return r;
    }
    template<> std::vector<jboolean> values() { return {0, 1}; }
    template<class T> void allValues() {
        World<T> w(false, 0);
        int f = choose(NF);
        T last = T{};
        for(T x : values<T>()) {
            T y = x;
            counts = {};
            if(f < NINST) JT<T>::set(w.env, w.ref[0], w.id[f], y);
            else JT<T>::sset(w.env, w.jc, w.id[f], y);
            MC_CHECK(same(w.cpp(0, f), x), "value", "%llx written to %s arrives as %llx", bits(x), names[f], bits(w.cpp(0, f)));
            T z = f < NINST ? JT<T>::get(w.env, w.ref[0], w.id[f]) : JT<T>::sget(w.env, w.jc, w.id[f]);
            MC_CHECK(same(z, x), "value", "%llx in %s reads as %llx", bits(x), names[f], bits(z));
            MC_CHECK(f >= NINST || FT<T>::eq(w.cpp(1, f), T{}), "other", "the other object changed");
            mc::transition();
        }
        MC_CHECK(w.obj[0]->intact(), "other", "neighbours");
    }
    void valuesOf() {
        switch(choose(8)) {
        case 0: allValues<jint>(); break;
        case 1: allValues<jboolean>(); break;
        case 2: allValues<jbyte>(); break;
        case 3: allValues<jchar>(); break;
        case 4: allValues<jshort>(); break;
        case 5: allValues<jlong>(); break;
        case 6: allValues<jfloat>(); break;
        case 7: allValues<jdouble>(); break;
        }
    }
    // Objects are kept by the field exactly while it holds them
    struct Keeper : Extends<> { std::shared_ptr<Val> a, b, f; };
    std::shared_ptr<Val> keptStatic;
    void lifetime() {
        Val::alive() = 0;
        keptStatic = nullptr;
        {
            VM vm;
            auto env = vm.GetJNIEnv();
            auto e = E(env);
            e->GetClass<Val>("p/Val");
            auto cls = e->GetClass<Keeper>("p/Keeper");
            auto jc = (jclass)(Object*)cls.get();
            cls->Hook(e, "a", &Keeper::a);
            cls->Hook(e, "b", &Keeper::b);
            cls->HookInstanceGetterFunction(e, "f", [](Keeper* k) -> std::shared_ptr<Val> { return k->f; });
            cls->HookInstanceSetterFunction(e, "f", [](Keeper* k, std::shared_ptr<Val> v) -> void { k->f = v; });
            cls->Hook(e, "s", &keptStatic);
            jfieldID id[4] = {env->GetFieldID(jc, "a", "Lp/Val;"), env->GetFieldID(jc, "b", "Lp/Val;"), env->GetFieldID(jc, "f", "Lp/Val;"), env->GetStaticFieldID(jc, "s", "Lp/Val;")};
            auto k = std::make_shared<Keeper>();
            auto jk = local(env, k);
            int holds[4] = {-1, -1, -1, -1}, next = 0;
            int n = mc::bound(4, 3, 5, 4);
            for(int i = 0; i < n; ++i) {
                int f = choose(4), what = choose(3);
                env->PushLocalFrame(0);
                if(what == 0) {
                    auto v = std::make_shared<Val>();
                    v->id = next++;
                    auto ref = local(env, v);
                    v = nullptr;
                    int kind = i % 3;
                    jobject r = kind == 1 ? env->NewGlobalRef(ref) : kind == 2 ? (jobject)env->NewWeakGlobalRef(ref) : ref;
                    if(f < 3) env->SetObjectField(jk, id[f], r);
                    else env->SetStaticObjectField(jc, id[f], r);
                    if(kind == 1) env->DeleteGlobalRef(r);
                    if(kind == 2) env->DeleteWeakGlobalRef((jweak)r);
                    holds[f] = next - 1;
                    log("field %d holds a new object", f);
                } else if(what == 1) {
                    if(f < 3) env->SetObjectField(jk, id[f], nullptr);
                    else env->SetStaticObjectField(jc, id[f], nullptr);
                    holds[f] = -1;
                    log("field %d is null", f);
                } else {
                    int g = (f + 1) % 4;
                    jobject r = g < 3 ? env->GetObjectField(jk, id[g]) : env->GetStaticObjectField(jc, id[g]);
                    if(f < 3) env->SetObjectField(jk, id[f], r);
                    else env->SetStaticObjectField(jc, id[f], r);
                    holds[f] = holds[g];
                    log("field %d holds what %d holds", f, g);
                }
                env->PopLocalFrame(nullptr);
                std::set<int> want;
                for(int h : holds) if(h >= 0) want.insert(h);
                MC_CHECK(Val::alive() == (int)want.size(), "lifetime", "%d objects are alive, %d are stored in fields", Val::alive(), (int)want.size());
                env->PushLocalFrame(0);
                for(int g = 0; g < 4; ++g) {
                    jobject r = g < 3 ? env->GetObjectField(jk, id[g]) : env->GetStaticObjectField(jc, id[g]);
                    auto v = unwrap<Val>(env, r);
                    MC_CHECK((v ? v->id : -1) == holds[g], "read", "field %d holds %d instead of %d", g, v ? v->id : -1, holds[g]);
                }
                env->PopLocalFrame(nullptr);
                mc::transition();
                std::string st;
                for(int h : holds) st += (char)(h + 2);
                mc::state(st);
            }
            keptStatic = nullptr;
        }
        MC_CHECK(Val::alive() == 0, "lifetime", "%d objects are alive in the end", Val::alive());
    }
    // Members of base classes, also several of them, at their offset in the object
    struct A : Extends<> { jint x = 1; jbyte y = 2; };
    struct B : Extends<A> { jdouble z = 3; jint x2 = 4; };
    struct C : Extends<> { jint x = 5; jlong w = 6; };
    struct D : Extends<B, C> { jint v = 7; };
    void inherited() {
        VM vm(false, choose(2));
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        auto ca = e->GetClass<A>("p/A"), cb = e->GetClass<B>("p/B"), cc = e->GetClass<C>("p/C"), cd = e->GetClass<D>("p/D");
        ca->Hook(e, "x", &A::x);
        ca->Hook(e, "y", &A::y);
        cb->Hook(e, "z", &B::z);
        cb->Hook(e, "x2", &B::x2);
        cc->Hook(e, "cx", &C::x);
        cc->Hook(e, "w", &C::w);
        cd->Hook(e, "v", &D::v);
        std::shared_ptr<D> d[2] = {std::make_shared<D>(), std::make_shared<D>()};
        jobject jd[2] = {local(env, d[0]), local(env, d[1])};
        auto jc = (jclass)(Object*)cd.get();
        auto jca = (jclass)(Object*)ca.get(), jcb = (jclass)(Object*)cb.get(), jcc = (jclass)(Object*)cc.get();
        bool from = choose(2);
        jfieldID x = env->GetFieldID(from ? jca : jc, "x", "I"), y = env->GetFieldID(from ? jcb : jc, "y", "B"), z = env->GetFieldID(from ? jcb : jc, "z", "D"),
            x2 = env->GetFieldID(from ? jcb : jc, "x2", "I"), cx = env->GetFieldID(from ? jcc : jc, "cx", "I"), w = env->GetFieldID(from ? jcc : jc, "w", "J"), v = env->GetFieldID(jc, "v", "I");
        double m[2][7] = {{1, 2, 3, 4, 5, 6, 7}, {1, 2, 3, 4, 5, 6, 7}};
        int n = mc::bound(3, 2, 4, 3);
        for(int i = 0; i < n; ++i) {
            int o = choose(2), f = choose(7), val = 40 + i * 7 + f;
            switch(f) {
            case 0: env->SetIntField(jd[o], x, val); break;
            case 1: env->SetByteField(jd[o], y, val); break;
            case 2: env->SetDoubleField(jd[o], z, val); break;
            case 3: env->SetIntField(jd[o], x2, val); break;
            case 4: env->SetIntField(jd[o], cx, val); break;
            case 5: env->SetLongField(jd[o], w, val); break;
            case 6: env->SetIntField(jd[o], v, val); break;
            }
            m[o][f] = val;
            log("field %d of object %d is %d", f, o, val);
            for(int p = 0; p < 2; ++p) {
                double j[7] = {(double)env->GetIntField(jd[p], x), (double)env->GetByteField(jd[p], y), env->GetDoubleField(jd[p], z), (double)env->GetIntField(jd[p], x2), (double)env->GetIntField(jd[p], cx), (double)env->GetLongField(jd[p], w), (double)env->GetIntField(jd[p], v)};
                double c[7] = {(double)d[p]->A::x, (double)d[p]->y, d[p]->z, (double)d[p]->x2, (double)d[p]->C::x, (double)d[p]->w, (double)d[p]->v};
                for(int g = 0; g < 7; ++g) MC_CHECK(j[g] == m[p][g] && c[g] == m[p][g], "inherited", "field %d of object %d: JNI %g, C++ %g, expected %g", g, p, j[g], c[g], m[p][g]);
            }
            mc::transition();
        }
    }
    // Fields of which only one direction is implemented, and functions that are replaced
    void partial() {
        VM vm;
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        auto c = e->GetClass<A>("p/A");
        auto jc = (jclass)(Object*)c.get();
        auto o = std::make_shared<A>();
        auto jo = local(env, o);
        bool st = choose(2);
        bool early = choose(2);
        jfieldID id = nullptr;
        auto lookup = [&] { id = st ? env->GetStaticFieldID(jc, "p", "I") : env->GetFieldID(jc, "p", "I"); };
        if(early) lookup();
        int getter = -1, setter = -1, next = 0;
        static int lastGet, lastSet, gets, sets;
        static jint lastValue;
        int n = mc::bound(4, 3, 5, 4);
        for(int i = 0; i < n; ++i) {
            int what = choose(3), k = next++;
            if(what == 0) {
                if(st) c->HookGetterFunction(e, "p", [k](Class*) -> jint { lastGet = k; gets++; return 1000 + k; });
                else c->HookInstanceGetterFunction(e, "p", [k](A*) -> jint { lastGet = k; gets++; return 1000 + k; });
                getter = k;
                log("getter %d", k);
            } else if(what == 1) {
                if(st) c->HookSetterFunction(e, "p", [k](Class*, jint v) -> void { lastSet = k; sets++; lastValue = v; });
                else c->HookInstanceSetterFunction(e, "p", [k](A*, jint v) -> void { lastSet = k; sets++; lastValue = v; });
                setter = k;
                log("setter %d", k);
            } else {
                // The other kind with the same name and type is another field
                if(!st) c->HookGetterFunction(e, "p", [k](Class*) -> jint { gets += 100; return 0; });
                else c->HookInstanceSetterFunction(e, "p", [k](A*, jint v) -> void { sets += 100; });
                log("other kind %d", k);
            }
            if(!id) lookup();
            gets = sets = 0;
            lastGet = lastSet = -1;
            lastValue = 0;
            if(st) env->SetStaticIntField(jc, id, 500 + i);
            else env->SetIntField(jo, id, 500 + i);
            MC_CHECK(sets == (setter >= 0) && gets == 0 && lastSet == setter && (setter < 0 || lastValue == 500 + i), "setter", "%d setters ran, last %d with %d, expected %d", sets, lastSet, lastValue, setter);
            sets = 0;
            jint got = st ? env->GetStaticIntField(jc, id) : env->GetIntField(jo, id);
            MC_CHECK(gets == (getter >= 0) && sets == 0 && lastGet == getter && got == (getter >= 0 ? 1000 + getter : 0), "getter", "%d getters ran, last %d, returned %d, expected %d", gets, lastGet, got, getter);
            mc::transition();
        }
    }
    // Many fields of one class
    struct Big : Extends<> { jint v[16] = {}; };
    void many() {
        VM vm;
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        auto c = e->GetClass<Big>("p/Big");
        auto jc = (jclass)(Object*)c.get();
        auto o = std::make_shared<Big>();
        auto jo = local(env, o);
        int n = chooseSize(mc::bound(513, 129, 2049, 257));
        auto store = std::make_shared<std::map<int, jint>>();
        std::vector<jfieldID> ids;
        for(int i = 0; i < n; ++i) {
            std::string name = "f" + std::to_string(i);
            c->HookInstanceGetterFunction(e, name, [store, i](Big*) -> jint { return (*store)[i]; });
            c->HookInstanceSetterFunction(e, name, [store, i](Big*, jint v) -> void { (*store)[i] = v; });
            ids.push_back(env->GetFieldID(jc, name.data(), "I"));
        }
        for(int i = 0; i < n; ++i) env->SetIntField(jo, ids[i], i * 3 + 1);
        for(int i = 0; i < n; ++i) {
            MC_CHECK(env->GetFieldID(jc, ("f" + std::to_string(i)).data(), "I") == ids[i], "id", "of field %d", i);
            MC_CHECK((*store)[i] == i * 3 + 1 && env->GetIntField(jo, ids[i]) == i * 3 + 1, "many", "field %d of %d", i, n);
            mc::transition();
        }
    }
    static int init = [] {
        mc::scenario("histories", histories, 3);
        mc::scenario("values", valuesOf, 2);
        mc::scenario("lifetime", lifetime, 2);
        mc::scenario("inherited", inherited, 2);
        mc::scenario("partial", partial, 2);
        mc::scenario("many", many, 1);
        return 0;
    }();
}
