// P12: the pending exception over histories of throws, calls and queries
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct Custom { int x; };
    struct Tr : Extends<> {};
    struct Ex : Extends<Throwable> {};
    enum Beh { Return, ThrowStd, ThrowInt, ThrowCustom, ThrowNewInside, ThrowThenThrow, ClearInside, InnerThrows, InnerThrowsCleared, InnerThenThrow, InvokeRaises, Unimplemented, CheckInside, BEH };
    const char* behName[] = {"returns", "throws std::exception", "throws int", "throws struct", "calls ThrowNew", "calls Throw and throws", "clears", "calls a throwing method", "calls a throwing method and clears", "calls a throwing method and throws", "invokes a raising native", "unimplemented", "queries"};
    // What is known of the pending exception
    struct Pending {
        bool set = false;
        char kind = 0;              // 's': std::exception with this message, 'i', 'c', 'n': none
        std::string msg;
        void* id = nullptr;         // the object, when known
        void* notId = nullptr;      // a different object before
    };
    struct Thread {
        JNIEnv* env;
        ENV* e;
        Pending p;
    };
    struct World;
    World* W;
    Thread* cur;
    Beh beh;
    int ranCalls, seq;

    void raise(char kind, const std::string& msg, void* id = nullptr) {
        Pending n;
        n.set = true;
        n.kind = kind;
        n.msg = msg;
        n.id = id;
        if(!id) n.notId = cur->p.set ? cur->p.id : nullptr;
        cur->p = n;
    }
    void body();
    jint result = 12345;

    struct World {
        VM vm;
        Thread th[2];
        std::shared_ptr<Class> cls, excls;
        jclass jc, jex;
        std::shared_ptr<Tr> obj;
        jobject jo;
        std::shared_ptr<Throwable> t[4];
        jobject jt[4];
        jmethodID mv, mn, ms, mc, mi, inner, un, ust, uct;
        std::string dyn;
        World() {
            th[0].env = vm.GetJNIEnv();
            th[0].e = E(th[0].env);
            th[1].env = nullptr;
            auto env = th[0].env;
            auto e = th[0].e;
            cls = e->GetClass<Tr>("p/Tr");
            excls = e->GetClass<Ex>("p/Ex");
            jc = (jclass)(Object*)cls.get();
            jex = (jclass)(Object*)excls.get();
            obj = std::make_shared<Tr>();
            jo = local(env, obj);
            for(int i = 0; i < 4; ++i) {
                t[i] = i == 3 ? std::make_shared<Ex>() : std::make_shared<Throwable>();
                if(i == 0) t[i]->except = std::make_exception_ptr(std::runtime_error("given"));
                if(i == 1) t[i]->except = std::make_exception_ptr(7);
                if(i == 3) t[i]->except = std::make_exception_ptr(Custom{3});
            }
            for(int i = 0; i < 3; ++i) jt[i] = local(env, t[i]);
            jt[3] = local(env, std::dynamic_pointer_cast<Ex>(t[3]));
            jt[1] = env->NewGlobalRef(jt[1]);
            cls->HookInstanceFunction(e, "v", [](Object*) -> jint { body(); return result; });
            cls->Hook(e, "s", [](Class*) -> jint { body(); return result; });
            cls->Hook(e, "<init>", []() { body(); return std::make_shared<Tr>(); });
            cls->Hook(e, "inner", [](Class*) -> void { throw std::runtime_error("inner"); });
            JNINativeMethod nm[] = {
                {(char*)"ns", (char*)"()I", (void*)+[](JNIEnv*, jclass) -> jint { body(); return result; }},
                {(char*)"ni", (char*)"()I", (void*)+[](JNIEnv*, jobject) -> jint { body(); return result; }},
                {(char*)"raise", (char*)"()V", (void*)+[](JNIEnv* env, jclass) -> void { env->ThrowNew(W->jex, "raised"); }},
            };
            env->RegisterNatives(jc, nm, 3);
            mv = env->GetMethodID(jc, "v", "()I");
            ms = env->GetStaticMethodID(jc, "s", "()I");
            mc = env->GetMethodID(jc, "<init>", "()V");
            inner = env->GetStaticMethodID(jc, "inner", "()V");
            un = env->GetMethodID(jc, "undefined", "()I");
            ust = env->GetStaticMethodID(jc, "undefined", "()I");
            uct = env->GetMethodID(jc, "<init>", "(I)V");
            W = this;
        }
        Method* native(const char* name) {
            for(auto& m : cls->methods) if(m->native && m->name == name) return m.get();
            mc::fail("native", "%s", name);
        }
        ~World() { W = nullptr; }
    };
    // What is pending is exactly what the model says, and asking changes nothing
    void observe() {
        auto env = cur->env;
        auto& p = cur->p;
        MC_FLAG((bool)env->ExceptionCheck() == p.set, "check", "ExceptionCheck is %d, expected %d", env->ExceptionCheck(), p.set);
        auto o = env->ExceptionOccurred();
        MC_FLAG((bool)o == p.set, "occurred", "ExceptionOccurred is %p, expected %s", (void*)o, p.set ? "an exception" : "null");
        if(!o || !p.set) return;
        auto th = unwrap<Throwable>(env, o);
        MC_FLAG(env->IsSameObject(o, env->ExceptionOccurred()), "identity", "ExceptionOccurred gave two objects");
        MC_FLAG((bool)env->ExceptionCheck(), "check", "asking for the exception cleared it");
        void* id = static_cast<Object*>(th.get());
        if(p.id) MC_FLAG(p.id == id, "identity", "the pending exception has become another one");
        else MC_FLAG(p.notId != id, "identity", "the pending exception has not been replaced");
        p.id = id;
        char kind = 'n';
        std::string msg;
        if(th->except) {
            try { std::rethrow_exception(th->except); }
            catch(const std::exception& x) { kind = 's'; msg = x.what(); }
            catch(int i) { kind = 'i'; msg = std::to_string(i); }
            catch(const Custom& c) { kind = 'c'; msg = std::to_string(c.x); }
            catch(...) { kind = '?'; }
        }
        MC_FLAG(kind == p.kind, "type", "pending exception has type %c instead of %c", kind, p.kind);
        MC_FLAG(msg == p.msg, "message", "pending exception has message `%s` instead of `%s`", msg.data(), p.msg.data());
    }
    void clear() { cur->env->ExceptionClear(); cur->p = {}; }
    void throwGiven(int i) {
        MC_FLAG(cur->env->Throw((jthrowable)W->jt[i]) == 0, "throw", "Throw failed");
        void* id = static_cast<Object*>(W->t[i].get());
        switch(i) {
        case 0: raise('s', "given", id); break;
        case 1: raise('i', "7", id); break;
        case 2: raise('n', "", id); break;
        case 3: raise('c', "3", id); break;
        }
    }
    void throwNew(const char* m) {
        MC_FLAG(cur->env->ThrowNew(W->jex, m) == 0, "throw", "ThrowNew failed");
        raise('s', m ? m : "");
    }
    bool escapes(Beh b) { return b == ThrowStd || b == ThrowInt || b == ThrowCustom || b == ThrowThenThrow || b == InnerThenThrow || b == InvokeRaises; }
    // Runs inside the called method
    void body() {
        ranCalls++;
        auto env = cur->env;
        observe();
        switch(beh) {
        case ThrowStd: { std::string m = "escaped " + std::to_string(++seq); raise('s', m); throw std::runtime_error(m); }
        case ThrowInt: raise('i', std::to_string(++seq)); throw seq;
        case ThrowCustom: raise('c', std::to_string(++seq)); throw Custom{seq};
        case ThrowNewInside: throwNew("new inside"); observe(); break;
        case ThrowThenThrow: { throwGiven(0); observe(); std::string m = "over " + std::to_string(++seq); raise('s', m); throw std::logic_error(m); }
        case ClearInside: clear(); observe(); break;
        case InnerThrows: env->CallStaticVoidMethod(W->jc, W->inner); raise('s', "inner"); observe(); break;
        case InnerThrowsCleared: env->CallStaticVoidMethod(W->jc, W->inner); raise('s', "inner"); observe(); clear(); observe(); break;
        case InnerThenThrow: env->CallStaticVoidMethod(W->jc, W->inner); raise('s', "inner"); observe(); raise('i', std::to_string(++seq)); throw seq;
        case InvokeRaises:
            try {
                W->native("raise")->invoke(*env, W->cls.get());
            } catch(const std::exception& x) {
                raise('s', "raised");
                MC_FLAG(x.what() == std::string("raised"), "rethrow", "native raised `raised` but `%s` was thrown", x.what());
                observe();
                raise('s', "raised");
                throw;
            }
            mc::flag("rethrow", "the exception raised by a native was not rethrown");
            break;
        case CheckInside: env->ExceptionDescribe(); observe(); break;
        default: break;
        }
    }
    // Through JNI
    void call(int kind, int form, Beh b) {
        auto env = cur->env;
        auto& w = *W;
        beh = b;
        ranCalls = 0;
        jint got = 0;
        jobject made = nullptr;
        bool un = b == Unimplemented;
        auto mv = un ? w.un : w.mv, ms = un ? w.ust : w.ms, mc_ = un ? w.uct : w.mc;
        jvalue a[1] = {};
        VaArgs va;
        log("thread %d: call %s (form %d) that %s", cur == &w.th[1], kind == 0 ? "static" : kind == 1 ? "virtual" : kind == 2 ? "non-virtual" : "constructor", form, behName[b]);
        va.build({{false, 0}}, kind == 2 ? 4 : 3);
        switch(kind * 3 + form) {
        case 0: got = env->CallStaticIntMethod(w.jc, ms); break;
        case 1: got = va.with([&](va_list l) { return env->CallStaticIntMethodV(w.jc, ms, l); }); break;
        case 2: got = env->CallStaticIntMethodA(w.jc, ms, a); break;
        case 3: got = env->CallIntMethod(w.jo, mv); break;
        case 4: got = va.with([&](va_list l) { return env->CallIntMethodV(w.jo, mv, l); }); break;
        case 5: got = env->CallIntMethodA(w.jo, mv, a); break;
        case 6: got = env->CallNonvirtualIntMethod(w.jo, w.jc, mv); break;
        case 7: got = va.with([&](va_list l) { return env->CallNonvirtualIntMethodV(w.jo, w.jc, mv, l); }); break;
        case 8: got = env->CallNonvirtualIntMethodA(w.jo, w.jc, mv, a); break;
        case 9: made = env->NewObject(w.jc, mc_, 0); break;
        case 10: made = va.with([&](va_list l) { return env->NewObjectV(w.jc, mc_, l); }); break;
        default: made = env->NewObjectA(w.jc, mc_, a); break;
        }
        MC_CHECK(ranCalls == !un, "calls", "the method ran %d times", ranCalls);
        if(kind < 3) MC_CHECK(got == (un || escapes(b) ? 0 : result), "result", "returned %d", got);
        else if(!un && !escapes(b)) MC_CHECK(made, "result", "constructor returned null");
        mc::transition();
    }
    // From C++: 0 native static, 1 native instance, 2 static method, 3 instance method
    void invoke(int kind, Beh b) {
        auto env = cur->env;
        auto& w = *W;
        beh = b;
        ranCalls = 0;
        log("thread %d: C++ invokes %s that %s", cur == &w.th[1], kind == 0 ? "static native" : kind == 1 ? "native" : kind == 2 ? "static method" : "method", behName[b]);
        char kindSeen = 0;
        std::string msg;
        jint got = 0;
        try {
            switch(kind) {
            case 0: got = w.native("ns")->invoke(*env, w.cls.get()).i; break;
            case 1: got = w.native("ni")->invoke(*env, static_cast<Object*>(w.obj.get())).i; break;
            case 2: got = ((Method*)w.ms)->invoke(*env, w.cls.get()).i; break;
            case 3: got = ((Method*)w.mv)->invoke(*env, static_cast<Object*>(w.obj.get())).i; break;
            }
        }
        catch(const std::exception& x) { kindSeen = 's'; msg = x.what(); }
        catch(int i) { kindSeen = 'i'; msg = std::to_string(i); }
        catch(const Custom& c) { kindSeen = 'c'; msg = std::to_string(c.x); }
        auto& p = cur->p;
        MC_CHECK(ranCalls == 1, "calls", "the method ran %d times", ranCalls);
        MC_CHECK((kindSeen != 0) == p.set, "rethrow", "C++ invoke %s although %s is pending", kindSeen ? "threw" : "returned", p.set ? "an exception" : "none");
        if(p.set) {
            if(p.kind == 'n') MC_CHECK(kindSeen == 's', "rethrow", "exception without native exception");
            else MC_CHECK(kindSeen == p.kind && msg == p.msg, "rethrow", "threw %c `%s` instead of %c `%s`", kindSeen, msg.data(), p.kind, p.msg.data());
        } else MC_CHECK(got == result, "result", "returned %d", got);
        mc::transition();
    }
    void state() {
        uint64_t s = 1;
        for(auto& t : W->th) {
            s = mc::mix(s, t.p.set ? t.p.kind : 0);
            for(int i = 0; i < 4; ++i) if(t.p.id == static_cast<Object*>(W->t[i].get())) s = mc::mix(s, i + 100);
            s = mc::mix(s, std::hash<std::string>()(t.p.msg));
        }
        mc::state(s);
    }
    void op(int step) {
        // Simple operations, calls of 4 kinds, invocations of 4 kinds
        int n = 9 + 4 * BEH + 4 * 5;
        int c = choose(n);
        switch(c) {
        case 0: clear(); log("clear"); break;
        case 1: throwNew("message"); log("ThrowNew"); break;
        case 2: throwGiven(0); log("Throw std"); break;
        case 3: throwGiven(1); log("Throw int"); break;
        case 4: throwGiven(2); log("Throw without native exception"); break;
        case 5: throwGiven(3); log("Throw of a derived class"); break;
        case 6: cur->env->ExceptionDescribe(); log("describe"); break;
        case 7: throwNew(nullptr); log("ThrowNew null"); break;
        case 8: throwNew(""); log("ThrowNew empty"); break;
        default:
            c -= 9;
            if(c < 4 * BEH) call(c / BEH, (step + c) % 3, (Beh)(c % BEH));
            else {
                c -= 4 * BEH;
                static const Beh nat[] = {Return, ThrowNewInside, ClearInside, InnerThrows, InnerThrowsCleared};
                static const Beh met[] = {Return, ThrowNewInside, ClearInside, ThrowStd, ThrowInt};
                invoke(c / 5, c / 5 < 2 ? nat[c % 5] : met[c % 5]);
            }
        }
        mc::transition();
    }
    void histories() {
        World w;
        cur = &w.th[0];
        seq = 0;
        int n = mc::bound(3, 2, 4, 3);
        for(int i = 0; i < n; ++i) {
            w.th[0].env->PushLocalFrame(0);
            op(i);
            observe();
            w.th[0].env->PopLocalFrame(nullptr);
            observe();
            state();
        }
    }
    // Two threads
    void threads() {
        World w;
        Peer peer;
        seq = 0;
        peer.run([&] {
            w.vm.GetJavaVM()->AttachCurrentThread(&w.th[1].env, nullptr);
            w.th[1].e = E(w.th[1].env);
        });
        int n = mc::bound(4, 3, 5, 4);
        for(int i = 0; i < n; ++i) {
            int t = choose(2), o = choose(7);
            auto f = [&] {
                cur = &w.th[t];
                switch(o) {
                case 0: clear(); log("thread %d: clear", t); break;
                case 1: throwNew(t ? "of the other" : "of the first"); log("thread %d: ThrowNew", t); break;
                case 2: throwGiven(t); log("thread %d: Throw", t); break;
                case 3: call(i % 4, i % 3, ThrowStd); break;
                case 4: call((i + 1) % 4, i % 3, Return); break;
                case 5: invoke(0, ThrowNewInside); break;
                case 6: invoke(2, Return); break;
                }
            };
            if(t) peer.run(f);
            else f();
            cur = &w.th[0];
            observe();
            peer.run([&] { cur = &w.th[1]; observe(); });
            mc::transition();
            state();
        }
        peer.run([&] { w.vm.GetJavaVM()->DetachCurrentThread(); });
    }
    // Every result type: the default value is returned by the raising call
    template<class R> struct Typed {
        static R val() { return value<R>(1); }
    };
    jobject objResult;
    template<> struct Typed<jobject> { static jobject val() { return objResult; } };
    template<> struct Typed<void> { static void val() {} };
    template<class R> void typed() {
        World w;
        cur = &w.th[0];
        seq = 0;
        auto env = cur->env;
        objResult = w.jo;
        std::string sig = JT<R>::sig == 'L' ? "()Ljava/lang/Object;" : std::string("()") + JT<R>::sig;
        w.cls->HookInstanceFunction(cur->e, "t", [](Object*) -> R { body(); return Typed<R>::val(); });
        w.cls->Hook(cur->e, "t", [](Class*) -> R { body(); return Typed<R>::val(); });
        auto iv = env->GetMethodID(w.jc, "t", sig.data()), is = env->GetStaticMethodID(w.jc, "t", sig.data());
        int before = choose(3), kind = choose(3), form = choose(3);
        Beh b = (Beh)choose(BEH);
        if(b == Unimplemented) {
            iv = env->GetMethodID(w.jc, "undef", sig.data());
            is = env->GetStaticMethodID(w.jc, "undef", sig.data());
        }
        if(before == 1) throwNew("before");
        if(before == 2) throwGiven(3);
        beh = b;
        ranCalls = 0;
        log("%s, kind %d form %d, %s", JT<R>::name(), kind, form, behName[b]);
        VaArgs va;
        va.build({{false, 0}}, kind == 2 ? 4 : 3);
        jvalue a[1] = {};
        auto run = [&]() -> R {
            switch(kind * 3 + form) {
            case 0: return JT<R>::st(env, w.jc, is);
            case 1: return va.with([&](va_list l) { return JT<R>::stV(env, w.jc, is, l); });
            case 2: return JT<R>::stA(env, w.jc, is, a);
            case 3: return JT<R>::call(env, w.jo, iv);
            case 4: return va.with([&](va_list l) { return JT<R>::callV(env, w.jo, iv, l); });
            case 5: return JT<R>::callA(env, w.jo, iv, a);
            case 6: return JT<R>::nv(env, w.jo, w.jc, iv);
            case 7: return va.with([&](va_list l) { return JT<R>::nvV(env, w.jo, w.jc, iv, l); });
            default: return JT<R>::nvA(env, w.jo, w.jc, iv, a);
            }
        };
        bool none = escapes(b) || b == Unimplemented;
        if constexpr(std::is_void<R>::value) run();
        else {
            R got = run();
            if constexpr(std::is_same<R, jobject>::value) {
                if(!none) MC_CHECK(got == objResult, "result", "object");
                else {
                    MC_CHECK(got != objResult, "result", "object of the method that raised");
                    unwrap<Object>(env, got);
                }
            } else MC_CHECK(same<R>(got, none ? R{} : value<R>(1)), "result", "%s: %llx", JT<R>::name(), bits(got));
        }
        MC_CHECK(ranCalls == (b != Unimplemented), "calls", "ran %d times", ranCalls);
        observe();
        clear();
        observe();
        mc::transition();
    }
    void types() {
        switch(choose(10)) {
        case 0: typed<jint>(); break;
        case 1: typed<void>(); break;
        case 2: typed<jobject>(); break;
        case 3: typed<jboolean>(); break;
        case 4: typed<jbyte>(); break;
        case 5: typed<jchar>(); break;
        case 6: typed<jshort>(); break;
        case 7: typed<jlong>(); break;
        case 8: typed<jfloat>(); break;
        case 9: typed<jdouble>(); break;
        }
    }
    // Calls nested in calls, the innermost raises: each level sees it and may clear or let it escape
    int depth, mode;
    void nestedBody(int level) {
        auto env = cur->env;
        if(level == depth) {
            raise('s', "deepest");
            throw std::runtime_error("deepest");
        }
        env->CallStaticVoidMethod(W->jc, env->GetStaticMethodID(W->jc, "n", "(I)V"), level + 1);
        observe();
        int m = mode >> level * 2 & 3;
        if(m == 1) clear();
        else if(m == 2) { raise('i', std::to_string(level)); throw level; }
        else if(m == 3) throwNew("level");
        observe();
    }
    void nested() {
        World w;
        cur = &w.th[0];
        seq = 0;
        w.cls->Hook(cur->e, "n", [](Class*, jint level) -> void { nestedBody(level); });
        depth = 1 + choose(mc::bound(5, 4, 7, 5));
        mode = 0;
        for(int i = 0; i < depth; ++i) mode |= choose(4) << i * 2;
        log("%d levels, mode %x", depth, mode);
        cur->env->CallStaticVoidMethod(w.jc, cur->env->GetStaticMethodID(w.jc, "n", "(I)V"), 0);
        observe();
        cur->env->CallStaticIntMethod(w.jc, w.ust);
        observe();
        mc::transition();
    }
    // Messages of any length and content
    void messages() {
        World w;
        cur = &w.th[0];
        int n = chooseSize(mc::bound(1025, 257, 4097, 1025)), pat = choose(3);
        std::string m(n, 'x');
        if(pat) for(int i = 0; i < n; ++i) m[i] = pat == 1 ? "%s%n"[i % 4] : (char)(1 + i % 255);
        {
            std::string copy = m;
            throwNew(copy.data());
            std::fill(copy.begin(), copy.end(), '#');
        }
        observe();
        cur->env->ExceptionDescribe();
        observe();
        clear();
        observe();
        mc::transition();
    }
    static int init = [] {
        mc::scenario("histories", histories, 2);
        mc::scenario("threads", threads, 3);
        mc::scenario("types", types, 2);
        mc::scenario("nested", nested, 2);
        mc::scenario("messages", messages, 1);
        return 0;
    }();
}
