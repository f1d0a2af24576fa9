// P14: registered natives
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct A : Extends<> {}; struct B : Extends<A> {}; struct U : Extends<> {};
    struct Jvm : Baron::Jvm {};
    constexpr int FUNCS = 12;
    struct Ran { int calls, fn, sig; JNIEnv* env; jobject on; jint i; jobject s; } ran;
    template<int K> jint f0(JNIEnv* e, jobject o) { ran.calls++; ran.fn = K; ran.sig = 0; ran.env = e; ran.on = o; return 100 + K; }
    template<int K> jint f1(JNIEnv* e, jobject o, jint i) { ran.calls++; ran.fn = K; ran.sig = 1; ran.env = e; ran.on = o; ran.i = i; return 200 + K; }
    template<int K> jint f2(JNIEnv* e, jobject o, jstring s) { ran.calls++; ran.fn = K; ran.sig = 2; ran.env = e; ran.on = o; ran.s = s; return 300 + K; }
    template<size_t...I> void fill(void* (&t)[3][FUNCS], std::index_sequence<I...>) {
        void* a[] = {(void*)f0<I>...}; void* b[] = {(void*)f1<I>...}; void* c[] = {(void*)f2<I>...};
        for(int i = 0; i < FUNCS; ++i) { t[0][i] = a[i]; t[1][i] = b[i]; t[2][i] = c[i]; }
    }
    void* fns[3][FUNCS];
    const char* sigs[] = {"()I", "(I)I", "(Ljava/lang/String;)I"};
    const char* names[] = {"m", "n", "mn"};
    constexpr int CLS = 3, NAMES = 3, SIGS = 3;

    struct World {
        Jvm vm;
        FakeJni::LocalFrame frame;
        JNIEnv* env;
        ENV* e;
        std::shared_ptr<Class> cls[CLS];
        jclass jc[CLS];
        std::shared_ptr<Object> obj[CLS];
        jobject jo[CLS];
        std::shared_ptr<String> str = std::make_shared<String>("x");
        jobject jstr;
        int reg[CLS][NAMES][SIGS];
        int next = 0;
        jmethodID hooked[CLS], hookedStatic[CLS];
        World() : frame(vm), env(&frame.getJniEnv()), e(E(env)) {
            if(!fns[0][0]) fill(fns, std::make_index_sequence<FUNCS>());
            cls[0] = e->GetClass<A>("p/A");
            cls[1] = e->GetClass<B>("p/B");
            cls[2] = e->GetClass<U>("p/U");
            obj[0] = std::make_shared<A>();
            obj[1] = std::make_shared<B>();
            obj[2] = std::make_shared<U>();
            jo[0] = local(env, std::dynamic_pointer_cast<A>(obj[0]));
            jo[1] = local(env, std::dynamic_pointer_cast<B>(obj[1]));
            jo[2] = local(env, std::dynamic_pointer_cast<U>(obj[2]));
            jstr = local(env, str);
            for(int c = 0; c < CLS; ++c) {
                jc[c] = (jclass)(Object*)cls[c].get();
                for(auto& x : reg[c]) for(int& y : x) y = -1;
                // Members with the names of the natives, and others
                cls[c]->Hook(e, "m", [c](jlong l) -> jint { return 1000 + c + (jint)l; });
                cls[c]->HookInstanceFunction(e, "n", [c](Object*, jlong l) -> jint { return 2000 + c + (jint)l; });
                cls[c]->Hook(e, "field", &value[c]);
                hookedStatic[c] = env->GetStaticMethodID(jc[c], "m", "(J)I");
                hooked[c] = env->GetMethodID(jc[c], "n", "(J)I");
            }
        }
        static jint value[CLS];
        int resolve(int c, int n, int s) { int r = reg[c][n][s]; return r < 0 && c == 1 ? reg[0][n][s] : r; }
        JNINativeMethod entry(int n, int s, int fn) { return {(char*)names[n], (char*)sigs[s], fns[s][fn]}; }
        void check() {
            env->PushLocalFrame(0);
            for(int c = 0; c < CLS; ++c) for(int n = 0; n < NAMES; ++n) for(int s = 0; s < SIGS; ++s) {
                int want = resolve(c, n, s);
                for(int on = 0; on < 2; ++on) {
                    auto p = cls[c]->getMethod(sigs[s], names[n]);
                    MC_CHECK((bool)p == (want >= 0), "found", "%s%s in class %d is %s", names[n], sigs[s], c, p ? "found" : "not found");
                    MC_CHECK((p != nullptr) == (want >= 0), "found", "%s%s in class %d", names[n], sigs[s], c);
                    ran = {};
                    jint got = 0;
                    bool threw = false;
                    try {
                        if(on) {
                            auto o = obj[c].get();
                            got = s == 0 ? p->invoke(*env, o).i : s == 1 ? p->invoke(*env, o, (jint)(4711 + c)).i : p->invoke(*env, o, str).i;
                        } else {
                            auto o = cls[c].get();
                            got = s == 0 ? p->invoke(*env, o).i : s == 1 ? p->invoke(*env, o, (jint)(4711 + c)).i : p->invoke(*env, o, str).i;
                        }
                    } catch(const std::runtime_error& x) { threw = true; }
                    MC_CHECK(threw == (want < 0), "found", "invoking %s%s of class %d %s", names[n], sigs[s], c, threw ? "threw" : "ran");
                    MC_CHECK(ran.calls == (want >= 0), "calls", "%d natives ran", ran.calls);
                    if(want >= 0) {
                        MC_CHECK(ran.fn == want && ran.sig == s, "function", "%s%s of class %d ran function %d (%s) instead of %d", names[n], sigs[s], c, ran.fn, sigs[ran.sig], want);
                        MC_CHECK(got == (s + 1) * 100 + want, "result", "%d", got);
                        MC_CHECK(ran.on == (on ? jo[c] : (jobject)jc[c]), "receiver", "%s%s of class %d", names[n], sigs[s], c);
                        MC_CHECK(ran.env == env, "env", "another environment");
                        if(s == 1) MC_CHECK(ran.i == 4711 + c, "argument", "%d", ran.i);
                        if(s == 2) MC_CHECK(ran.s == jstr, "argument", "string");
                    }
                    mc::transition();
                }
            }
            for(int c = 0; c < CLS; ++c) {
                MC_CHECK(env->GetStaticMethodID(jc[c], "m", "(J)I") == hookedStatic[c], "others", "static method of class %d is gone", c);
                MC_CHECK(env->GetMethodID(jc[c], "n", "(J)I") == hooked[c], "others", "method of class %d is gone", c);
                MC_CHECK(env->CallStaticIntMethod(jc[c], hookedStatic[c], (jlong)7) == 1007 + c, "others", "static method of class %d", c);
                MC_CHECK(env->CallIntMethod(jo[c], hooked[c], (jlong)7) == 2007 + c, "others", "method of class %d", c);
                value[c] = 50 + c;
                MC_CHECK(env->GetStaticIntField(jc[c], env->GetStaticFieldID(jc[c], "field", "I")) == 50 + c, "others", "field of class %d", c);
            }
            env->PopLocalFrame(nullptr);
        }
        void state() {
            // Which functions does not matter, but which of them are the same and where
            std::string s;
            for(auto& a : reg) for(auto& b : a) for(int x : b) s += (char)(x + 2);
            mc::state(s);
        }
    };
    jint World::value[CLS];
    void histories() {
        World w;
        int n = mc::bound(4, 3, 5, 4);
        w.env->PushLocalFrame(0);
        for(int i = 0; i < n; ++i) {
            int c = choose(CLS), what = choose(8);
            auto take = [&] { return w.next++ % FUNCS; };
            jobject cref = i % 2 ? w.env->NewGlobalRef(w.jc[c]) : (jobject)w.jc[c];
            if(what < 4) {
                int nn = what < 2 ? 0 : what - 1, s = what == 1 ? 1 : what == 3 ? 2 : 0;
                int f = take();
                auto m = w.entry(nn, s, f);
                MC_CHECK(w.env->RegisterNatives((jclass)cref, &m, 1) == 0, "status", "RegisterNatives");
                w.reg[c][nn][s] = f;
                log("class %d: %s%s runs %d", c, names[nn], sigs[s], f);
            } else if(what == 4) {
                // Several, one of them twice: the last one counts
                int f = take(), g = take(), h = take(), k = take();
                JNINativeMethod m[] = {w.entry(0, 0, f), w.entry(0, 1, g), w.entry(1, 0, h), w.entry(0, 0, k)};
                MC_CHECK(w.env->RegisterNatives((jclass)cref, m, 4) == 0, "status", "RegisterNatives");
                w.reg[c][0][0] = k;
                w.reg[c][0][1] = g;
                w.reg[c][1][0] = h;
                log("class %d: m()I runs %d, m(I)I runs %d, n()I runs %d", c, k, g, h);
            } else if(what == 5) {
                // Only the given number of entries
                int f = take(), g = take();
                JNINativeMethod m[] = {w.entry(0, 0, f), w.entry(1, 1, g), w.entry(2, 2, f)};
                MC_CHECK(w.env->RegisterNatives((jclass)cref, m, 2) == 0, "status", "RegisterNatives");
                w.reg[c][0][0] = f;
                w.reg[c][1][1] = g;
                log("class %d: m()I runs %d, n(I)I runs %d", c, f, g);
            } else if(what == 6) {
                MC_CHECK(w.env->UnregisterNatives((jclass)cref) == 0, "status", "UnregisterNatives");
                for(auto& x : w.reg[c]) for(int& y : x) y = -1;
                log("class %d: unregister", c);
            } else {
                JNINativeMethod m = w.entry(0, 0, take());
                MC_CHECK(w.env->RegisterNatives((jclass)cref, &m, 0) == 0, "status", "RegisterNatives");
                log("class %d: register none", c);
            }
            if(i % 2) w.env->DeleteGlobalRef(cref);
            w.check();
            w.state();
        }
    }
    // Arguments and results of all types reach natives and methods invoked from C++
    template<class T> struct Arg { static T val(World&) { return value<T>(3); } static T jni(World& w) { return val(w); } static std::string sig() { return std::string(1, JT<T>::sig); } using J = T; };
    template<> struct Arg<std::shared_ptr<String>> { static std::shared_ptr<String> val(World& w) { return w.str; } static jobject jni(World& w) { return w.jstr; } static std::string sig() { return "Ljava/lang/String;"; } using J = jobject; };
    template<> struct Arg<std::shared_ptr<A>> { static std::shared_ptr<A> val(World& w) { return nullptr; } static jobject jni(World& w) { return nullptr; } static std::string sig() { return "Lp/A;"; } using J = jobject; };
    template<> struct Arg<bool> { static bool val(World& w) { return true; } static jboolean jni(World& w) { return JNI_TRUE; } static std::string sig() { return "Z"; } using J = jboolean; };
    World* cur;
    jobject resultObject;
    template<class R> R result() { return value<R>(5); }
    template<> jobject result<jobject>() { return resultObject; }
    template<> void result<void>() {}
    int seen;
    template<class R, class X> R nat2(JNIEnv* e, jobject o, typename Arg<X>::J x, jlong l, jdouble d, jint i) {
        seen++;
        ran.on = o;
        MC_FLAG(same<typename Arg<X>::J>(x, Arg<X>::jni(*cur)), "argument", "%s: %llx", Arg<X>::sig().data(), bits(x));
        MC_FLAG(l == 0x123456789abcdefll && d == 0.1 && i == -5, "argument", "after %s", Arg<X>::sig().data());
        return result<R>();
    }
    template<class R, class X> void typed() {
        World w;
        cur = &w;
        resultObject = w.jo[1];
        std::string sig = "(" + Arg<X>::sig() + "JDI)" + (JT<R>::sig == 'L' ? std::string("Ljava/lang/Object;") : std::string(1, JT<R>::sig));
        JNINativeMethod m = {(char*)"t", (char*)sig.data(), (void*)nat2<R, X>};
        w.env->RegisterNatives(w.jc[0], &m, 1);
        w.cls[0]->Hook(w.e, "h", [](JNIEnv* e, jclass c, X x, jlong l, jdouble d, jint i) -> R { return nat2<R, X>(e, (jobject)c, JNITypes<X>::ToJNIReturnType(E(e), x), l, d, i); });
        w.cls[0]->HookInstanceFunction(w.e, "k", [](JNIEnv* e, Object* self, X x, jlong l, jdouble d, jint i) -> R { return nat2<R, X>(e, (jobject)self, JNITypes<X>::ToJNIReturnType(E(e), x), l, d, i); });
        for(int kind = 0; kind < 6; ++kind) {
            w.env->PushLocalFrame(0);
            auto p = w.cls[kind % 2]->getMethod(sig.data(), kind < 4 ? "t" : kind == 4 ? "h" : "k");
            MC_CHECK(p != nullptr, "found", "%s", sig.data());
            seen = 0;
            bool onObject = kind == 2 || kind == 3 || kind == 5;
            jvalue v = onObject ? p->invoke(*w.env, w.obj[kind % 2].get(), Arg<X>::val(w), (jlong)0x123456789abcdefll, (jdouble)0.1, (jint)-5)
                                : p->invoke(*w.env, w.cls[kind % 2].get(), Arg<X>::val(w), (jlong)0x123456789abcdefll, (jdouble)0.1, (jint)-5);
            MC_CHECK(seen == 1, "calls", "%d", seen);
            MC_CHECK(ran.on == (onObject ? w.jo[kind % 2] : (jobject)w.jc[kind % 2]), "receiver", "kind %d", kind);
            if constexpr(!std::is_void<R>::value) MC_CHECK(same<R>(JT<R>::in(v), result<R>()), "result", "%s: %llx", JT<R>::name(), bits(JT<R>::in(v)));
            w.env->PopLocalFrame(nullptr);
            mc::transition();
        }
    }
    template<class R> void typed1() {
        switch(choose(11)) {
        case 0: typed<R, jint>(); break;
        case 1: typed<R, jboolean>(); break;
        case 2: typed<R, jbyte>(); break;
        case 3: typed<R, jchar>(); break;
        case 4: typed<R, jshort>(); break;
        case 5: typed<R, jlong>(); break;
        case 6: typed<R, jfloat>(); break;
        case 7: typed<R, jdouble>(); break;
        case 8: typed<R, std::shared_ptr<String>>(); break;
        case 9: typed<R, std::shared_ptr<A>>(); break;
        case 10: typed<R, bool>(); break;
        }
    }
    void types() {
        switch(choose(10)) {
        case 0: typed1<jint>(); break;
        case 1: typed1<void>(); break;
        case 2: typed1<jobject>(); break;
        case 3: typed1<jboolean>(); break;
        case 4: typed1<jbyte>(); break;
        case 5: typed1<jchar>(); break;
        case 6: typed1<jshort>(); break;
        case 7: typed1<jlong>(); break;
        case 8: typed1<jfloat>(); break;
        case 9: typed1<jdouble>(); break;
        }
    }
    // Large tables
    void many() {
        World w;
        int n = chooseSize(mc::bound(257, 65, 1025, 257)), mode = choose(3);
        std::vector<std::string> nm;
        for(int i = 0; i < n; ++i) nm.push_back("x" + std::to_string(i));
        std::vector<JNINativeMethod> t;
        for(int i = 0; i < n; ++i) t.push_back({(char*)nm[i].data(), (char*)sigs[0], fns[0][i % FUNCS]});
        int shift = 0;
        if(mode == 0) w.env->RegisterNatives(w.jc[0], t.data(), n);
        else for(auto& x : t) w.env->RegisterNatives(w.jc[0], &x, 1);
        if(mode == 2) { shift = 1; for(int i = n - 1; i >= 0; --i) { t[i].fnPtr = fns[0][(i + 1) % FUNCS]; w.env->RegisterNatives(w.jc[0], &t[i], 1); } }
        for(int i = 0; i < n; ++i) {
            ran = {};
            w.cls[1]->getMethod("()I", nm[i].data())->invoke(*w.env, w.cls[1].get());
            MC_CHECK(ran.calls == 1 && ran.fn == (i + shift) % FUNCS, "many", "native %d of %d ran %d", i, n, ran.fn);
            mc::transition();
        }
        w.check();
        w.env->UnregisterNatives(w.jc[0]);
        for(int i = 0; i < n; ++i) MC_CHECK(!w.cls[0]->getMethod("()I", nm[i].data()), "many", "native %d of %d is still found", i, n);
        w.check();
    }
    // Natives are told apart by the whole name and the whole signature
    template<int K> jlong known(JNIEnv* e, jobject o) { ran.calls++; ran.fn = K; ran.env = e; ran.on = o; return 0; }
    void overloads() {
        static const char* const N[] = {"o", "O", "oo"};
        static const char* const S[] = {"()I", "()J", "()S", "()V", "()[I", "()[[I", "()Lp/A;", "()Lp/B;", "()[Lp/A;", "(I)I", "(II)I", "(J)I", "([I)I", "(Lp/A;)I", "(Lp/B;)I", "(Lp/A;)J", "(Lp/A;I)I", "([Lp/A;)I"};
        constexpr int nN = sizeof(N) / sizeof(*N), nS = sizeof(S) / sizeof(*S);
        World w;
        int a = choose(nN * nS), b = choose(nN * nS), how = choose(3);
        log("%s%s and %s%s, %s", N[a / nS], S[a % nS], N[b / nS], S[b % nS], how == 0 ? "one table" : how == 1 ? "two tables" : "two tables, the first one again");
        JNINativeMethod m[] = {{(char*)N[a / nS], (char*)S[a % nS], (void*)known<1>}, {(char*)N[b / nS], (char*)S[b % nS], (void*)known<2>}};
        if(how == 0) w.env->RegisterNatives(w.jc[0], m, 2);
        else for(auto& x : m) w.env->RegisterNatives(w.jc[0], &x, 1);
        int first = a == b ? 2 : 1;
        if(how == 2) {
            m[0].fnPtr = (void*)known<3>;
            w.env->RegisterNatives(w.jc[0], m, 1);
            first = 3;
        }
        int second = a == b ? first : 2;
        for(int i = 0; i < nN * nS; ++i) {
            Method* p = w.cls[1]->getMethod(S[i % nS], N[i / nS]);
            int want = i == a ? first : i == b ? second : 0;
            MC_CHECK((p != nullptr) == (want > 0), "overload", "%s%s is %s", N[i / nS], S[i % nS], p ? "found" : "not found");
            if(!p) continue;
            ran = {};
            p->invoke(*w.env, w.cls[1].get(), (jlong)0, (jlong)0);
            MC_CHECK(ran.calls == 1 && ran.fn == want, "overload", "%s%s ran function %d instead of %d", N[i / nS], S[i % nS], ran.fn, want);
            mc::transition();
        }
    }
    // A native may register, replace and unregister natives, itself included
    void reentrant() {
        World w;
        static bool reg;
        reg = choose(2);
        JNINativeMethod m = {(char*)"self", (char*)"()I", (void*)+[](JNIEnv* e, jclass c) -> jint {
            JNINativeMethod m = {(char*)"self", (char*)"()I", (void*)f0<3>};
            if(reg) e->RegisterNatives(c, &m, 1);
            else e->UnregisterNatives(c);
            return 5;
        }};
        w.env->RegisterNatives(w.jc[0], &m, 1);
        std::shared_ptr<Method> keep;
        for(auto& x : w.cls[0]->methods) if(x->native && x->name == "self") keep = x;
        MC_CHECK(keep && keep->invoke(*w.env, w.cls[0].get()).i == 5, "reentrant", "result");
        auto p = w.cls[0]->getMethod("()I", "self");
        MC_CHECK((bool)p == reg, "reentrant", "found afterwards");
        if(reg) MC_CHECK(p->invoke(*w.env, w.cls[0].get()).i == 103, "reentrant", "replaced function");
        w.check();
        mc::transition();
    }
    static int init = [] {
        mc::scenario("histories", histories, 3);
        mc::scenario("types", types, 2);
        mc::scenario("many", many, 2);
        mc::scenario("reentrant", reentrant, 1);
        mc::scenario("overloads", overloads, 2);
        return 0;
    }();
}
