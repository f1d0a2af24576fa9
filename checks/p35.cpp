// P35: invoking methods from C++ through Class::getMethod
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct Base : Tracked<> { jint tag = 0; };
    struct Derived : Tracked<Extends<Base>> {};
    using Obj = std::shared_ptr<Base>;

    struct World {
        std::shared_ptr<FakeJni::Jvm> fake;
        JNIEnv* env;
        ENV* e;
        std::shared_ptr<Class> base, derived;
        Obj o[3];
        World(int kind) {
            fake = kind == 0 ? std::make_shared<FakeJni::Jvm>() : kind == 1 ? std::make_shared<FakeJni::Jvm>(false, false) : std::make_shared<Baron::Jvm>();
            static_cast<JavaVM*>(fake.get())->GetEnv((void**)&env, JNI_VERSION_1_6);
            e = E(env);
            base = e->GetClass<Base>("p/Base");
            derived = e->GetClass<Derived>("p/Derived");
            for(int i = 0; i < 3; ++i) { o[i] = std::make_shared<Base>(); o[i]->tag = i + 1; }
        }
    };

    // What the last called function saw
    struct Seen {
        int calls = 0;
        std::string who;
        std::vector<unsigned long long> args;
        const void* self = nullptr;
    };
    Seen seen;
    World* world;
    template<class T> struct A {
        using native = T;
        static T make(int i) { return value<T>(i); }
        static unsigned long long see(T v) { return bits(v); }
        static unsigned long long seeNative(T v) { return bits(v); }
        static std::string sig() { return std::string(1, JT<T>::sig); }
    };
    template<> struct A<Obj> {
        using native = jobject;
        static Obj make(int i) { return i % 4 == 3 ? nullptr : world->o[i % 3]; }
        static unsigned long long see(const Obj& v) { return (unsigned long long)(uintptr_t)v.get(); }
        static unsigned long long seeNative(jobject v) { return (unsigned long long)(uintptr_t)unwrap<Base>(world->env, v).get(); }
        static std::string sig() { return "Lp/Base;"; }
    };
    template<class R> R result(int i) { return A<R>::make(i); }
    template<> void result<void>(int) {}
    template<class R> struct NativeResult { using type = R; static R get(int i) { return result<R>(i); } static std::string sig() { return A<R>::sig(); } };
    template<> struct NativeResult<void> { using type = void; static void get(int) {} static std::string sig() { return "V"; } };
    template<> struct NativeResult<Obj> { using type = jobject; static jobject get(int i) { return local(world->env, A<Obj>::make(i)); } static std::string sig() { return A<Obj>::sig(); } };
    int resultIndex;

    template<class R, class... P> struct Fn {
        static R stat(P... p) {
            seen.calls++; seen.who = "static"; seen.args = {A<P>::see(p)...};
            return result<R>(resultIndex);
        }
        static R inst(Base* self, P... p) {
            seen.calls++; seen.who = "instance"; seen.args = {A<P>::see(p)...}; seen.self = self;
            return result<R>(resultIndex);
        }
        static typename NativeResult<R>::type nat(JNIEnv* env, jobject self, typename A<P>::native... p) {
            seen.calls++; seen.who = "native"; seen.args = {A<P>::seeNative(p)...}; seen.self = unwrap<Object>(env, self).get();
            MC_CHECK(env == world->env, "environment", "a native got another environment");
            return NativeResult<R>::get(resultIndex);
        }
        static std::string sig() {
            std::string s = "(";
            for(auto& t : std::vector<std::string>{A<P>::sig()...}) s += t;
            return s + ")" + NativeResult<R>::sig();
        }
        static void check(jvalue v) {
            if constexpr(std::is_same<R, void>::value) {
            } else if constexpr(std::is_same<R, Obj>::value) {
                auto o = A<Obj>::make(resultIndex);
                MC_CHECK((bool)o == (bool)v.l && unwrap<Base>(world->env, v.l) == o, "result", "another object was returned");
                if(o) MC_CHECK(world->env->GetObjectRefType(v.l) == JNILocalRefType, "result", "the result is no local reference");
            } else {
                R w = result<R>(resultIndex), g;
                memcpy(&g, &v, sizeof(R));
                MC_CHECK(same(w, g) && same(JT<R>::in(v), w), "result", "%s: result %llx instead of %llx", sig().data(), bits(g), bits(w));
            }
        }
        template<class Self> static void invoke(World& w, MethodProxy m, Self self, const char* who, const void* ptr, int rot) {
            seen = {};
            int k = rot;
            std::tuple<P...> args{A<P>::make(k++)...};
            auto v = std::apply([&](auto... p) { return m->invoke(*w.env, self, p...); }, args);
            MC_CHECK(seen.calls == 1 && seen.who == who, "called", "%s called %d times, last %s instead of %s", sig().data(), seen.calls, seen.who.data(), who);
            int i = 0;
            std::vector<unsigned long long> want;
            std::apply([&](auto... p) { want = {A<decltype(p)>::see(p)...}; }, args);
            for(; i < (int)want.size(); ++i) MC_CHECK(seen.args[i] == want[i], "argument", "%s %s: argument %d is %llx instead of %llx", who, sig().data(), i, seen.args[i], want[i]);
            if(ptr) MC_CHECK(seen.self == ptr, "receiver", "%s %s: another receiver", who, sig().data());
            check(v);
            MC_CHECK(!w.env->ExceptionCheck(), "exception", "%s raised", sig().data());
        }
        static void run() {
            int vm = choose(3), how = choose(4), rot = choose(8), n = choose(2) ? 3 : 0;
            World w(vm);
            world = &w;
            resultIndex = rot + n;
            auto s = sig();
            log("vm %d how %d %s rotation %d", vm, how, s.data(), rot);
            auto recv = std::make_shared<Base>();
            w.e->GetJNIEnv();
            local(w.env, recv);
            if(how == 0) {
                w.base->Hook(w.e, "f", &Fn::stat);
            } else if(how == 1) {
                w.base->HookInstanceFunction(w.e, "f", &Fn::inst);
            } else {
                JNINativeMethod m = { (char*)"f", (char*)s.data(), (void*)&Fn::nat };
                MC_CHECK(!w.env->RegisterNatives((jclass)(Object*)w.base.get(), &m, 1), "register", "registering failed");
            }
            auto p = w.base->getMethod(s.data(), "f");
            MC_CHECK((bool)p && (Method*)p, "found", "%s was not found", s.data());
            MC_CHECK(((Method*)p)->name == "f" && ((Method*)p)->signature == s, "found", "found %s%s", ((Method*)p)->name.data(), ((Method*)p)->signature.data());
            for(int i = 0; i < 2; ++i) {
                if(how == 0) invoke(w, p, w.base.get(), "static", nullptr, rot + i);
                if(how == 1) invoke(w, p, (Object*)recv.get(), "instance", recv.get(), rot + i);
                if(how == 2) invoke(w, p, w.base.get(), "native", (Object*)w.base.get(), rot + i);
                if(how == 3) invoke(w, p, (Object*)recv.get(), "native", (Object*)recv.get(), rot + i);
            }
        }
    };
    using Runner = void (*)();
    std::vector<Runner>& runners() { static std::vector<Runner> r; return r; }
    template<class... T> struct List {};
    using Prims = List<jboolean, jbyte, jchar, jshort, jint, jlong, jfloat, jdouble, Obj>;
    template<class R, class... P> void add() { runners().push_back(&Fn<R, P...>::run); }
    template<class... T> void one(List<T...>) { (add<jint, T>(), ...); (add<T>(), ...); (add<T, jint, jdouble, jlong, jfloat, jboolean, Obj>(), ...); (add<T, T, T, T>(), ...); }
    template<class X, class... T> void pairs1(List<T...>) { (add<jlong, X, T>(), ...); }
    template<class... T> void pairs(List<T...> l) { (pairs1<T>(Prims()), ...); }
    using First = List<jboolean, jlong, jfloat, Obj>;
    void fill() {
        add<void>();
        add<void, Obj>();
        add<void, jint, jdouble>();
        one(Prims());
        pairs(First());
        // More arguments than registers
        add<jint, jint, jlong, jshort, jbyte, jchar, jboolean, jint, jlong, Obj, jshort, jbyte, jchar, jboolean>();
        add<jdouble, jfloat, jdouble, jfloat, jdouble, jfloat, jdouble, jfloat, jdouble, jfloat, jdouble, jfloat, jdouble>();
        add<Obj, Obj, jdouble, jint, jfloat, Obj, jlong, jdouble, jboolean, jfloat, jshort, jdouble, jchar, jfloat, jbyte, jdouble, Obj, jfloat, jint, jdouble, jlong, jfloat, jfloat>();
    }
    void arguments() {
        if(runners().empty()) fill();
        runners()[choose((int)runners().size())]();
    }

    // Which function an invocation runs
    enum Kind { STATIC, INSTANCE, NATIVE };
    std::string ran;
    template<int K, int C> jint hook(jint x) { ran = std::string("static") + (C ? "D" : "B"); return x; }
    template<int C> jint natv(JNIEnv*, jobject, jint x) { ran = std::string("native") + (C ? "D" : "B"); return x + 2; }
    void kinds() {
        int vm = choose(3);
        int st = choose(4), in = choose(4), na = choose(4);     // 1: in the base, 2: in the derived class
        int order = choose(2);
        World w(vm);
        world = &w;
        log("vm %d static %d instance %d native %d", vm, st, in, na);
        for(int k = 0; k < 3; ++k) {
            int what = order ? 2 - k : k;
            if(what == 0) {
                if(st & 1) w.base->Hook(w.e, "f", &hook<0, 0>);
                if(st & 2) w.derived->Hook(w.e, "f", &hook<0, 1>);
            } else if(what == 1) {
                if(in & 1) w.base->HookInstanceFunction(w.e, "f", [](Base*, jint x) -> jint { ran = "instanceB"; return x + 1; });
                if(in & 2) w.derived->HookInstanceFunction(w.e, "f", [](Derived*, jint x) -> jint { ran = "instanceD"; return x + 1; });
            } else {
                JNINativeMethod b = { (char*)"f", (char*)"(I)I", (void*)&natv<0> }, d = { (char*)"f", (char*)"(I)I", (void*)&natv<1> };
                if(na & 1) w.env->RegisterNatives((jclass)(Object*)w.base.get(), &b, 1);
                if(na & 2) w.env->RegisterNatives((jclass)(Object*)w.derived.get(), &d, 1);
            }
        }
        auto bo = std::make_shared<Base>();
        auto d0 = std::make_shared<Derived>();
        local(w.env, bo);
        local(w.env, d0);
        auto near = [](int set, bool derived) -> const char* { return derived && (set & 2) ? "D" : set & 1 ? "B" : nullptr; };
        auto members = w.base->methods.size() + w.derived->methods.size();
        for(int lookup = 0; lookup < 2; ++lookup) {
            auto& c = lookup ? w.derived : w.base;
            auto s = near(st, lookup), i = near(in, lookup), n = !s && !i ? near(na, lookup) : nullptr;
            auto p = c->getMethod("(I)I", "f");
            if(!s && !i && !n) {
                MC_CHECK(!(bool)p && !(Method*)p, "found", "found a method nobody declared");
            } else if(!(s && i)) {
                MC_CHECK((bool)p && (Method*)p, "found", "a declared method was not found");
            } else {
                bool threw = false;
                try { (void)(Method*)p; } catch(const std::runtime_error&) { threw = true; }
                MC_CHECK(threw, "ambiguous", "a method that is both static and not was found without an error");
            }
            for(int how = 0; how < 3; ++how) {
                // By class, by object of the base, by object of the derived class
                if(how == 1 && lookup) continue;
                std::string want;
                int plus = 0;
                if(how == 0) {
                    if(s) want = std::string("static") + s;
                    else if(n) { want = std::string("native") + n; plus = 2; }
                } else {
                    auto v = near(in, how == 2);
                    if(i) { want = std::string("instance") + v; plus = 1; }
                    else if(n) { want = std::string("native") + n; plus = 2; }
                }
                ran.clear();
                jint r = -1;
                bool threw = false;
                try {
                    r = how == 0 ? p->invoke(*w.env, c.get(), (jint)40).i : how == 1 ? p->invoke(*w.env, (Object*)bo.get(), (jint)40).i : p->invoke(*w.env, (Object*)d0.get(), (jint)40).i;
                } catch(const std::runtime_error&) { threw = true; }
                MC_CHECK(ran == want, "selected", "lookup in %d, by %d: ran '%s' instead of '%s'", lookup, how, ran.data(), want.data());
                MC_CHECK(threw == want.empty(), "selected", "lookup in %d, by %d: %s", lookup, how, threw ? "threw" : "did not throw");
                if(!threw) MC_CHECK(r == 40 + plus, "result", "lookup in %d, by %d: result %d", lookup, how, r);
                MC_CHECK(!w.env->ExceptionCheck(), "exception", "an exception is pending");
                mc::transition();
            }
            // Another name and signature is not found
            MC_CHECK(!(bool)c->getMethod("(I)V", "f") && !(bool)c->getMethod("(I)I", "g") && !(bool)c->getMethod("()I", "f"), "found", "found another method");
        }
        MC_CHECK(members == w.base->methods.size() + w.derived->methods.size(), "declared", "a lookup declared a member");
    }

    // Exceptions come out of invoke as they were thrown
    struct Own { int v; };
    struct Sub : std::runtime_error { using std::runtime_error::runtime_error; };
    void raise(int what, JNIEnv* env) {
        switch(what) {
        case 0: throw 17;
        case 1: throw std::runtime_error("r");
        case 2: throw Own{5};
        case 3: throw Sub("s");
        case 4: env->ThrowNew(env->FindClass("java/lang/Throwable"), "native message"); return;
        case 5: throw std::make_shared<int>(9);
        }
    }
    std::string caught(std::function<void()> f) {
        try { f(); }
        catch(int i) { return "int " + std::to_string(i); }
        catch(const Own& o) { return "own " + std::to_string(o.v); }
        catch(const Sub& s) { return std::string("sub ") + s.what(); }
        catch(const std::shared_ptr<int>& p) { return "ptr " + std::to_string(*p); }
        catch(const std::exception& r) { return std::string("runtime ") + r.what(); }
        return "nothing";
    }
    int cause, runs;
    World* W;
    void rethrow() {
        static const int DEPTH = mc::bound(3, 2, 4, 3);
        World w(choose(3));
        W = world = &w;
        auto step = [](int x) { runs++; if(x) raise(cause, W->env); };
        w.base->Hook(w.e, "s", [step](jint x) { step(x); });
        w.base->HookInstanceFunction(w.e, "i", [step](Base*, jint x) -> jint { step(x); return 3; });
        struct N { static void f(JNIEnv* env, jobject, jint x) { runs++; if(x) env->ThrowNew(env->FindClass("java/lang/Throwable"), "native message"); } };
        JNINativeMethod m = { (char*)"n", (char*)"(I)V", (void*)&N::f };
        w.env->RegisterNatives((jclass)(Object*)w.base.get(), &m, 1);
        auto s = w.base->getMethod("(I)V", "s"), i = w.base->getMethod("(I)I", "i"), n = w.base->getMethod("(I)V", "n");
        auto o = std::make_shared<Base>();
        local(w.env, o);
        for(int step = 0; step < DEPTH; ++step) {
            int op = choose(5), what = op < 3 ? choose(7) : 0;
            if(op == 4) break;
            runs = 0;
            cause = what == 6 ? 0 : what;
            jint x = what != 6;
            if(op == 2 && what != 4 && what != 6) break;
            log("op %d cause %d", op, what);
            std::string got = op == 3 ? "nothing" : caught([&] {
                if(op == 0) s->invoke(*w.env, w.base.get(), x);
                if(op == 1) MC_CHECK(i->invoke(*w.env, (Object*)o.get(), x).i == 3, "result", "wrong result");
                if(op == 2) n->invoke(*w.env, w.base.get(), x);
            });
            static const char* want[] = { "int 17", "runtime r", "own 5", "sub s", "runtime native message", "ptr 9", "nothing" };
            if(op != 3) {
                MC_CHECK(runs == 1, "called", "the function ran %d times", runs);
                MC_CHECK(got == want[what], "rethrown", "threw '%s' instead of '%s'", got.data(), want[what]);
                MC_CHECK((bool)w.env->ExceptionCheck() == (what != 6), "pending", "after '%s' an exception is %s", got.data(), w.env->ExceptionCheck() ? "pending" : "not pending");
                w.env->ExceptionClear();
            } else {
                // The JNI call keeps the exception, clearing it leaves nothing for the next invocation
                cause = 1;
                auto c = (jclass)(Object*)w.base.get();
                w.env->CallStaticVoidMethod(c, w.env->GetStaticMethodID(c, "s", "(I)V"), 1);
                MC_CHECK(w.env->ExceptionCheck(), "pending", "no exception is pending");
                w.env->ExceptionClear();
            }
            mc::transition();
        }
    }
    // Objects only live as long as references to them
    void lifetime() {
        int how = choose(4), pass = choose(3), frames = choose(3);
        Derived::alive() = 0;
        World w(choose(3));
        world = &w;
        struct N { static jobject f(JNIEnv* env, jobject, jobject o) { return o; } };
        static const char* sig = "(Lp/Base;)Lp/Base;";
        if(how == 0) w.base->Hook(w.e, "f", [](Obj o) { return o; });
        if(how == 1) w.base->HookInstanceFunction(w.e, "f", [](Base*, Obj o) { return o; });
        if(how >= 2) {
            JNINativeMethod m = { (char*)"f", (char*)sig, (void*)&N::f };
            w.env->RegisterNatives((jclass)(Object*)w.base.get(), &m, 1);
        }
        auto recv = std::make_shared<Base>();
        std::weak_ptr<Base> wr = recv, wa;
        for(int i = 0; i <= frames; ++i) w.env->PushLocalFrame(i);
        auto p = w.base->getMethod(sig, "f");
        {
            Obj a = std::make_shared<Derived>();
            wa = a;
            jvalue r;
            auto call = [&](auto arg) { r = how == 0 || how == 2 ? p->invoke(*w.env, w.base.get(), arg) : p->invoke(*w.env, (Object*)recv.get(), arg); };
            if(pass == 0) call(a);
            if(pass == 1) call(std::static_pointer_cast<Object>(a));
            if(pass == 2) call(local(w.env, a));
            MC_CHECK(unwrap<Base>(w.env, r.l) == a, "identity", "another object was returned");
            a.reset();
            MC_CHECK(!wa.expired(), "lifetime", "the result does not hold the object");
            recv.reset();
            if(frames == 2) {
                auto g = w.env->NewGlobalRef(r.l);
                for(int i = 0; i <= frames; ++i) w.env->PopLocalFrame(nullptr);
                MC_CHECK(!wa.expired(), "lifetime", "the global reference does not hold the object");
                w.env->DeleteGlobalRef(g);
                MC_CHECK(wa.expired() && wr.expired(), "lifetime", "invoking keeps objects");
                return;
            }
        }
        for(int i = 0; i <= frames; ++i) w.env->PopLocalFrame(nullptr);
        MC_CHECK(wa.expired() && wr.expired(), "lifetime", "invoking keeps objects");
        MC_CHECK(Derived::alive() == 0, "lifetime", "invoking copies objects");
    }
    int init = [] {
        mc::scenario("arguments", arguments, 2);
        mc::scenario("kinds", kinds, 2);
        mc::scenario("rethrow", rethrow, 2);
        mc::scenario("lifetime", lifetime, 2);
        return 0;
    }();
}
