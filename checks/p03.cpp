// P03: every operation with every kind of reference for every operand
#include "../mc/jtypes.hpp"
#include <thread>
using namespace jh;

namespace {
    struct Tr : Tracked<> {
        std::shared_ptr<Object> field;
        std::shared_ptr<String> sfield;
        std::shared_ptr<Tr> tfield;
        jint num = 0;
        static std::shared_ptr<Object> sobj;
    };
    std::shared_ptr<Object> Tr::sobj;
    struct Der : Tracked<Extends<Tr>> {};

    // The same object through a reference of each kind
    struct Ref {
        JNIEnv* env;
        int kind = 0;
        jobject h = nullptr, base = nullptr;
        Ref(JNIEnv* env, jobject o, const char* what) : env(env) {
            kind = choose(4);
            base = o;
            log("%s as %s", what, kind == 0 ? "local" : kind == 1 ? "global" : kind == 2 ? "weak" : "weak of global");
            if(kind == 0) h = o;
            if(kind == 1) h = env->NewGlobalRef(o);
            if(kind == 2) h = env->NewWeakGlobalRef(o);
            if(kind == 3) { auto g = env->NewGlobalRef(o); h = env->NewWeakGlobalRef(g); env->DeleteGlobalRef(g); }
            MC_CHECK(h, "null-reference", "%s", what);
        }
        template<class T> T as() { return (T)h; }
        jobject o() { return h; }
        jclass c() { return (jclass)h; }
        void drop() {
            if(kind == 1) env->DeleteGlobalRef(h);
            if(kind == 2 || kind == 3) env->DeleteWeakGlobalRef(h);
            kind = 0;
        }
        ~Ref() { drop(); }
    };

    struct World {
        VM vm;
        JNIEnv* env = vm.GetJNIEnv();
        std::shared_ptr<Class> tc, dc;
        jclass tcl, dcl;
        std::shared_ptr<Tr> recv, arg;
        std::shared_ptr<Object> gotObj, gotSelf;
        std::shared_ptr<Class> gotClass;
        int calls = 0;
        World() {
            Tr::sobj = nullptr;
            auto e = E(env);
            tc = e->GetClass<Tr>("p/Tr");
            dc = e->GetClass<Der>("p/Der");
            tcl = (jclass)(Object*)tc.get();
            dcl = (jclass)(Object*)dc.get();
            recv = std::make_shared<Tr>();
            recv->id = 1;
            arg = std::make_shared<Tr>();
            arg->id = 2;
            local(env, recv);
            local(env, arg);
        }
        jobject R() { return (jobject)(Object*)recv.get(); }
        jobject A() { return (jobject)(Object*)arg.get(); }
        ~World() { Tr::sobj = nullptr; }
    };
#define SAME(a, b, what) MC_CHECK((void*)(a) == (void*)(b), "wrong-object", what)

    // What one typed method call did, for every result type
    template<class T> struct Typed {
        static void methods(World& w) {
            auto env = w.env;
            auto e = E(env);
            T ret = value<T>(3);
            auto impl = [&w, ret](Tr* self, std::shared_ptr<Object> a) -> T { w.gotSelf = std::shared_ptr<Object>(self->shared_from_this(), self); w.gotObj = a; w.calls++; return ret; };
            auto simpl = [&w, ret](Class* c, std::shared_ptr<Object> a) -> T { w.gotClass = std::shared_ptr<Class>(c->shared_from_this(), c); w.gotObj = a; w.calls++; return ret; };
            w.tc->HookInstanceFunction(e, "m", std::move(impl));
            w.tc->Hook(e, "s", std::move(simpl));
            std::string sig = std::string("(Ljava/lang/Object;)") + JT<T>::sig;
            int form = choose(9);
            static const char* forms[] = {"Call", "CallV", "CallA", "Nonvirtual", "NonvirtualV", "NonvirtualA", "Static", "StaticV", "StaticA"};
            log("%s %s", JT<T>::name(), forms[form]);
            auto m = env->GetMethodID(w.tcl, "m", sig.data());
            auto s = env->GetStaticMethodID(w.tcl, "s", sig.data());
            MC_CHECK(m && s, "setup", "no id");
            Ref r(env, form < 6 ? w.R() : (jobject)w.tcl, "receiver");
            Ref a(env, w.A(), "argument");
            jvalue v[1];
            v[0].l = a.h;
            VaArgs va;
            va.build({{false, (uint64_t)a.h}}, form < 3 || form > 5 ? 3 : 4);
            T got{};
            auto run = [&](jclass c) {
                switch(form) {
                case 0: got = JT<T>::call(env, r.h, m, a.h); break;
                case 1: got = va.with([&](va_list l) { return JT<T>::callV(env, r.h, m, l); }); break;
                case 2: got = JT<T>::callA(env, r.h, m, v); break;
                case 3: got = JT<T>::nv(env, r.h, c, m, a.h); break;
                case 4: got = va.with([&](va_list l) { return JT<T>::nvV(env, r.h, c, m, l); }); break;
                case 5: got = JT<T>::nvA(env, r.h, c, m, v); break;
                case 6: got = JT<T>::st(env, r.c(), s, a.h); break;
                case 7: got = va.with([&](va_list l) { return JT<T>::stV(env, r.c(), s, l); }); break;
                case 8: got = JT<T>::stA(env, r.c(), s, v); break;
                }
            };
            if(form >= 3 && form <= 5) {
                Ref c(env, (jobject)w.tcl, "class");
                run(c.c());
            } else {
                run(nullptr);
            }
            mc::transition();
            MC_CHECK(!env->ExceptionCheck(), "exception", "the call raised an exception");
            MC_CHECK(w.calls == 1, "calls", "implementation ran %d times", w.calls);
            MC_CHECK(same(got, ret), "result", "got %llx instead of %llx", bits(got), bits(ret));
            SAME(w.gotObj.get(), (Object*)w.arg.get(), "argument");
            if(form < 6) SAME(w.gotSelf.get(), (Object*)w.recv.get(), "receiver");
            else SAME(w.gotClass.get(), w.tc.get(), "class");
        }
        static void fields(World& w) {
            auto env = w.env;
            auto e = E(env);
            static T ivar, svar;
            ivar = svar = value<T>(1);
            struct Fn { static void m(Tr*) {} };
            T* pi = &ivar; T* ps = &svar;
            w.tc->HookInstanceGetterFunction(e, "f", [&w, pi](Tr* self) -> T { w.gotSelf = std::shared_ptr<Object>(self->shared_from_this(), self); w.calls++; return *pi; });
            w.tc->HookInstanceSetterFunction(e, "f", [&w, pi](Tr* self, T v) { w.gotSelf = std::shared_ptr<Object>(self->shared_from_this(), self); w.calls++; *pi = v; });
            w.tc->Hook(e, "g", std::move(ps));
            char sig[2] = {JT<T>::sig, 0};
            bool st = choose(2);
            log("%s %s field", JT<T>::name(), st ? "static" : "instance");
            Ref r(env, st ? (jobject)w.tcl : w.R(), "owner");
            Ref c(env, (jobject)w.tcl, "class");
            auto f = st ? env->GetStaticFieldID(c.c(), "g", sig) : env->GetFieldID(c.c(), "f", sig);
            T got = st ? JT<T>::sget(env, r.c(), f) : JT<T>::get(env, r.h, f);
            MC_CHECK(same(got, value<T>(1)), "result", "read %llx", bits(got));
            if(st) JT<T>::sset(env, r.c(), f, value<T>(2)); else JT<T>::set(env, r.h, f, value<T>(2));
            MC_CHECK(same(st ? svar : ivar, value<T>(2)), "result", "the write is lost");
            if(!st) {
                MC_CHECK(w.calls == 2, "calls", "%d accesses", w.calls);
                SAME(w.gotSelf.get(), (Object*)w.recv.get(), "receiver");
            }
            mc::transition();
            MC_CHECK(!env->ExceptionCheck(), "exception", "the access raised an exception");
        }
        static void arrays(World& w) {
            auto env = w.env;
            auto a = JT<T>::newArray(env, 5);
            Ref r(env, a, "array");
            auto h = r.template as<typename JT<T>::array>();
            T in[5], out[5];
            for(int i = 0; i < 5; ++i) in[i] = value<T>(i);
            log("%s array", JT<T>::name());
            MC_CHECK(env->GetArrayLength(h) == 5, "result", "length %d", env->GetArrayLength(h));
            JT<T>::setRegion(env, h, 0, 5, in);
            memset((void*)out, 0x5a, sizeof(out));
            JT<T>::getRegion(env, h, 0, 5, out);
            MC_CHECK(!memcmp(in, out, sizeof(in)), "result", "region differs");
            jboolean copy;
            T* p = JT<T>::elements(env, h, &copy);
            MC_CHECK(p && !memcmp(p, in, sizeof(in)), "result", "elements differ");
            auto c = (T*)env->GetPrimitiveArrayCritical(h, nullptr);
            MC_CHECK(c && !memcmp(c, in, sizeof(in)), "result", "critical elements differ");
            p[4] = value<T>(0);
            env->ReleasePrimitiveArrayCritical(h, c, 0);
            JT<T>::release(env, h, p, choose(2) ? 0 : JNI_COMMIT);
            JT<T>::getRegion(env, a, 4, 1, out);
            MC_CHECK(same(out[0], value<T>(0)), "result", "written element is lost");
            mc::transition();
        }
    };

#define EACH(F) switch(choose(8)) { \
        case 0: Typed<jboolean>::F(w); break; case 1: Typed<jbyte>::F(w); break; case 2: Typed<jchar>::F(w); break; case 3: Typed<jshort>::F(w); break; \
        case 4: Typed<jint>::F(w); break; case 5: Typed<jlong>::F(w); break; case 6: Typed<jfloat>::F(w); break; case 7: Typed<jdouble>::F(w); break; }
    void methods() { World w; EACH(methods) }
    void fields() { World w; EACH(fields) }
    void arrays() { World w; EACH(arrays) }

    // Results and void
    void objectCalls() {
        World w;
        auto env = w.env;
        auto e = E(env);
        w.tc->HookInstanceFunction(e, "m", [&w](Tr* self, std::shared_ptr<Tr> a) -> std::shared_ptr<Tr> { w.gotObj = a; w.gotSelf = std::shared_ptr<Object>(self->shared_from_this(), self); w.calls++; return a; });
        w.tc->HookInstanceFunction(e, "raw", [&w](Tr* self, jobject a) -> jobject { w.gotObj = unwrap<Object>(w.env, a); w.calls++; return a; });
        w.tc->HookInstanceFunction(e, "ptr", [&w](Tr* self, Tr* a) -> std::shared_ptr<Tr> { w.gotObj = a ? a->shared_from_this() : nullptr; w.calls++; return std::shared_ptr<Tr>(w.gotObj, a); });
        w.tc->HookInstanceFunction(e, "ref", [&w](Tr* self, Tr& a) { w.gotObj = a.shared_from_this(); w.calls++; });
        w.tc->Hook(e, "env", [&w](ENV* en, Class* c, std::shared_ptr<Tr> a) -> std::shared_ptr<Object> { w.gotObj = a; w.calls++; return a; });
        w.tc->Hook(e, "<init>", [&w](std::shared_ptr<Tr> a) -> std::shared_ptr<Tr> { w.gotObj = a; w.calls++; auto t = std::make_shared<Tr>(); t->id = 9; t->tfield = a; return t; });
        int which = choose(9);
        log("call %d", which);
        Ref r(env, w.R(), "receiver"), a(env, w.A(), "argument"), c(env, (jobject)w.tcl, "class");
        jobject res = nullptr;
        bool v = false;
        switch(which) {
        case 0: res = env->CallObjectMethod(r.h, env->GetMethodID(c.c(), "m", "(Lp/Tr;)Lp/Tr;"), a.h); break;
        case 1: res = env->CallObjectMethod(r.h, env->GetMethodID(c.c(), "raw", "(Ljava/lang/Object;)Ljava/lang/Object;"), a.h); break;
        case 2: res = env->CallObjectMethod(r.h, env->GetMethodID(c.c(), "ptr", "(Lp/Tr;)Lp/Tr;"), a.h); break;
        case 3: env->CallVoidMethod(r.h, env->GetMethodID(c.c(), "ref", "(Lp/Tr;)V"), a.h); v = true; break;
        case 4: res = env->CallStaticObjectMethod(c.c(), env->GetStaticMethodID(c.c(), "env", "(Lp/Tr;)Ljava/lang/Object;"), a.h); break;
        case 5: res = env->NewObject(c.c(), env->GetMethodID(c.c(), "<init>", "(Lp/Tr;)V"), a.h); break;
        case 6: res = env->CallNonvirtualObjectMethod(r.h, c.c(), env->GetMethodID(c.c(), "m", "(Lp/Tr;)Lp/Tr;"), a.h); break;
        case 7: { jvalue j; j.l = a.h; res = env->NewObjectA(c.c(), env->GetMethodID(c.c(), "<init>", "(Lp/Tr;)V"), &j); break; }
        case 8: { VaArgs va; va.build({{false, (uint64_t)a.h}}, 3); auto id = env->GetMethodID(c.c(), "<init>", "(Lp/Tr;)V"); res = va.with([&](va_list l) { return env->NewObjectV(c.c(), id, l); }); break; }
        }
        mc::transition();
        MC_CHECK(!env->ExceptionCheck() && w.calls == 1, "exception", "calls %d", w.calls);
        SAME(w.gotObj.get(), (Object*)w.arg.get(), "argument");
        if(which == 5 || which >= 7) {
            auto t = unwrap<Tr>(env, res);
            MC_CHECK(t && t->id == 9 && t->tfield == w.arg, "wrong-object", "new object");
        } else if(!v) {
            MC_CHECK(env->IsSameObject(res, w.A()) && unwrap<Tr>(env, res) == w.arg, "wrong-object", "result");
        }
    }

    // Objects stored through any kind of reference are kept alive by the place only
    void stored() {
        {
        World w;
        auto env = w.env;
        auto e = E(env);
        std::weak_ptr<Tr> weak;
        w.tc->Hook(e, "obj", &Tr::field);
        w.tc->Hook(e, "tr", &Tr::tfield);
        w.tc->Hook(e, "sobj", &Tr::sobj);
        env->PushLocalFrame(0);
        jobject o;
        {
            auto t = std::make_shared<Tr>();
            t->id = 5;
            weak = t;
            o = local(env, t);
        }
        int place = choose(9);
        log("place %d", place);
        jobject holder = nullptr;
        auto arr = [&](jclass c, jobject init) { auto a = env->NewObjectArray(3, c, init); return env->NewGlobalRef(a); };
        {
            Ref r(env, o, "value");
            Ref own(env, place == 4 || place == 7 ? (jobject)w.tcl : w.R(), "owner");
            switch(place) {
            case 0: case 1: case 2: {
                Ref ec(env, place == 2 ? (jobject)w.tcl : (jobject)env->FindClass("java/lang/Object"), "element class");
                if(place == 1) {
                    holder = arr(ec.c(), r.h);
                } else {
                    holder = arr(ec.c(), nullptr);
                    Ref ar(env, holder, "array");
                    env->SetObjectArrayElement(ar.as<jobjectArray>(), 1, r.h);
                }
                break;
            }
            case 3: env->SetObjectField(own.h, env->GetFieldID(w.tcl, "obj", "Ljava/lang/Object;"), r.h); break;
            case 4: env->SetStaticObjectField(own.c(), env->GetStaticFieldID(w.tcl, "sobj", "Ljava/lang/Object;"), r.h); break;
            case 5: env->SetObjectField(own.h, env->GetFieldID(w.tcl, "tr", "Lp/Tr;"), r.h); break;
            case 6: {
                w.tc->HookInstanceFunction(e, "keep", [&w](Tr* self, std::shared_ptr<Tr> a) { w.gotObj = a; });
                env->CallVoidMethod(own.h, env->GetMethodID(w.tcl, "keep", "(Lp/Tr;)V"), r.h);
                break;
            }
            case 7: {
                w.tc->Hook(e, "keeps", [&w](std::shared_ptr<Object> a) { w.gotObj = a; });
                env->CallStaticVoidMethod(own.c(), env->GetStaticMethodID(w.tcl, "keeps", "(Ljava/lang/Object;)V"), r.h);
                break;
            }
            case 8: holder = env->NewGlobalRef(r.h); break;
            }
        }
        env->PopLocalFrame(nullptr);
        mc::transition();
        MC_CHECK(!env->ExceptionCheck(), "exception", "storing raised an exception");
        MC_CHECK(!weak.expired(), "released-early", "the place does not keep the object");
        Object* raw = weak.lock().get();
        env->PushLocalFrame(0);
        switch(place) {
        case 0: case 2: SAME(unwrap<Object>(env, env->GetObjectArrayElement((jobjectArray)holder, 1)).get(), raw, "element"); env->SetObjectArrayElement((jobjectArray)holder, 1, nullptr); break;
        case 1: for(int i = 0; i < 3; ++i) { SAME(unwrap<Object>(env, env->GetObjectArrayElement((jobjectArray)holder, i)).get(), raw, "initial element"); MC_CHECK(!weak.expired(), "released-early", "initial element"); env->SetObjectArrayElement((jobjectArray)holder, i, nullptr); } break;
        case 3: SAME(unwrap<Object>(env, env->GetObjectField(w.R(), env->GetFieldID(w.tcl, "obj", "Ljava/lang/Object;"))).get(), raw, "field"); SAME(w.recv->field.get(), raw, "field"); w.recv->field = nullptr; break;
        case 4: SAME(Tr::sobj.get(), raw, "static field"); Tr::sobj = nullptr; break;
        case 5: SAME((Object*)w.recv->tfield.get(), raw, "field"); env->SetObjectField(w.R(), env->GetFieldID(w.tcl, "tr", "Lp/Tr;"), nullptr); break;
        case 6: case 7: SAME(w.gotObj.get(), raw, "argument"); w.gotObj = nullptr; break;
        case 8: env->DeleteGlobalRef(holder); break;
        }
        env->PopLocalFrame(nullptr);
        MC_CHECK(weak.expired(), "released-late", "the object outlives its place");
        mc::transition();
        }
        MC_CHECK(Tr::alive() == 0, "released-late", "%d objects survive the VM", Tr::alive());
    }

    void exceptions() {
        World w;
        auto env = w.env;
        auto t = std::make_shared<Throwable>();
        t->except = std::make_exception_ptr(std::runtime_error("boom"));
        env->PushLocalFrame(0);
        auto o = local(env, t);
        auto raw = t.get();
        std::weak_ptr<Throwable> weak = t;
        t = nullptr;
        {
            Ref r(env, o, "throwable");
            if(choose(2)) {
                MC_CHECK(env->Throw(r.as<jthrowable>()) == 0, "result", "Throw failed");
            } else {
                w.tc->Hook(E(env), "thrown", [&](std::shared_ptr<Throwable> a) { w.gotObj = a; });
                env->CallStaticVoidMethod(w.tcl, env->GetStaticMethodID(w.tcl, "thrown", "(Ljava/lang/Throwable;)V"), r.h);
                SAME(w.gotObj.get(), (Object*)raw, "throwable argument");
                env->Throw((jthrowable)(Object*)w.gotObj.get());
                w.gotObj = nullptr;
            }
        }
        env->PopLocalFrame(nullptr);
        mc::transition();
        MC_CHECK(env->ExceptionCheck() && !weak.expired(), "released-early", "the pending exception is not kept");
        env->PushLocalFrame(0);
        SAME((Object*)env->ExceptionOccurred(), (Object*)raw, "pending exception");
        env->ExceptionClear();
        env->PopLocalFrame(nullptr);
        MC_CHECK(!env->ExceptionCheck() && weak.expired(), "released-late", "the cleared exception stays");
        {
            Ref c(env, (jobject)env->FindClass("java/lang/Throwable"), "class");
            env->ThrowNew(c.c(), "msg");
            MC_CHECK(env->ExceptionCheck(), "result", "nothing pending");
            try { std::rethrow_exception(unwrap<Throwable>(env, env->ExceptionOccurred())->except); } catch(const std::exception& ex) { MC_CHECK(!strcmp(ex.what(), "msg"), "result", "message %s", ex.what()); }
            env->ExceptionClear();
        }
    }

    void strings() {
        World w;
        auto env = w.env;
        const char* text = choose(2) ? "h\xc3\xa4\xe2\x82\xac" : "";
        auto s = env->NewStringUTF(text);
        Ref r(env, s, "string");
        auto h = r.as<jstring>();
        int n = text[0] ? 3 : 0;
        jchar want[3] = {'h', 0xe4, 0x20ac}, buf[3];
        char ub[8];
        MC_CHECK(env->GetStringLength(h) == n, "result", "length");
        MC_CHECK(env->GetStringUTFLength(h) == (jsize)strlen(text), "result", "utf length");
        jboolean copy;
        auto c = env->GetStringChars(h, &copy);
        MC_CHECK(c && !memcmp(c, want, n * 2), "result", "chars");
        env->ReleaseStringChars(h, c);
        c = env->GetStringCritical(h, nullptr);
        MC_CHECK(c && !memcmp(c, want, n * 2), "result", "critical");
        env->ReleaseStringCritical(h, c);
        auto u = env->GetStringUTFChars(h, &copy);
        MC_CHECK(!strcmp(u, text), "result", "utf chars");
        env->ReleaseStringUTFChars(h, u);
        env->GetStringRegion(h, 0, n, buf);
        MC_CHECK(!memcmp(buf, want, n * 2), "result", "region");
        env->GetStringUTFRegion(h, 0, n, ub);
        MC_CHECK(!strcmp(ub, text), "result", "utf region");
        w.tc->Hook(E(env), "str", [&](std::shared_ptr<String> a) { w.gotObj = a; });
        env->CallStaticVoidMethod(w.tcl, env->GetStaticMethodID(w.tcl, "str", "(Ljava/lang/String;)V"), h);
        SAME(w.gotObj.get(), unwrap<Object>(env, s).get(), "string argument");
        mc::transition();
        MC_CHECK(!env->ExceptionCheck(), "exception", "exception");
    }

    void classes() {
        World w;
        auto env = w.env;
        int op = choose(14);
        log("class operation %d", op);
        auto oc = env->FindClass("java/lang/Object");
        switch(op) {
        case 0: { Ref c(env, (jobject)w.dcl, "class"); MC_CHECK(env->IsSameObject(env->GetSuperclass(c.c()), (jobject)w.tcl), "result", "superclass"); break; }
        case 1: {
            jclass cs[] = {w.tcl, w.dcl, oc};
            int i = choose(3), j = choose(3);
            Ref a(env, (jobject)cs[i], "class"), b(env, (jobject)cs[j], "other class");
            bool want = i == j || j == 2 || (i == 1 && j == 0);
            MC_CHECK((bool)env->IsAssignableFrom(a.c(), b.c()) == want, "result", "IsAssignableFrom %d %d", i, j);
            break;
        }
        case 2: {
            jclass cs[] = {w.tcl, w.dcl, oc};
            int j = choose(3);
            Ref a(env, w.R(), "object"), b(env, (jobject)cs[j], "class");
            MC_CHECK((bool)env->IsInstanceOf(a.h, b.c()) == (j != 1), "result", "IsInstanceOf %d", j);
            break;
        }
        case 3: { Ref a(env, w.R(), "object"); MC_CHECK(env->IsSameObject(env->GetObjectClass(a.h), (jobject)w.tcl), "result", "GetObjectClass"); break; }
        case 4: {
            Ref c(env, (jobject)w.tcl, "class"), d(env, (jobject)w.tcl, "same class");
            MC_CHECK(env->GetMethodID(c.c(), "x", "()V") == env->GetMethodID(d.c(), "x", "()V"), "result", "ids differ");
            MC_CHECK(env->GetStaticMethodID(c.c(), "x", "()V") == env->GetStaticMethodID(d.c(), "x", "()V"), "result", "ids differ");
            MC_CHECK(env->GetFieldID(c.c(), "x", "I") == env->GetFieldID(d.c(), "x", "I"), "result", "ids differ");
            MC_CHECK(env->GetStaticFieldID(c.c(), "x", "I") == env->GetStaticFieldID(d.c(), "x", "I"), "result", "ids differ");
            break;
        }
        case 5: {
            bool st = choose(2);
            auto m = st ? env->GetStaticMethodID(w.tcl, "x", "()V") : env->GetMethodID(w.tcl, "x", "()V");
            Ref c(env, (jobject)w.tcl, "class");
            auto o = env->ToReflectedMethod(c.c(), m, st);
            Ref r(env, o, "reflected method");
            MC_CHECK(env->FromReflectedMethod(r.h) == m, "result", "reflected method");
            break;
        }
        case 6: {
            bool st = choose(2);
            auto m = st ? env->GetStaticFieldID(w.tcl, "x", "I") : env->GetFieldID(w.tcl, "x", "I");
            Ref c(env, (jobject)w.tcl, "class");
            auto o = env->ToReflectedField(c.c(), m, st);
            Ref r(env, o, "reflected field");
            MC_CHECK(env->FromReflectedField(r.h) == m, "result", "reflected field");
            break;
        }
        case 7: {
            Ref a(env, w.R(), "object"), b(env, choose(2) ? w.R() : w.A(), "other");
            MC_CHECK((bool)env->IsSameObject(a.h, b.h) == (a.base == b.base), "result", "IsSameObject");
            break;
        }
        case 8: {
            env->PushLocalFrame(0);
            Ref a(env, w.A(), "result");
            auto r = env->PopLocalFrame(a.h);
            SAME(r, w.A(), "frame result");
            MC_CHECK(env->GetObjectRefType(r) == JNILocalRefType, "result", "kind of the frame result");
            break;
        }
        case 9: {
            int x;
            auto b = env->NewDirectByteBuffer(&x, 1234567890123ll);
            Ref r(env, b, "buffer");
            MC_CHECK(env->GetDirectBufferAddress(r.h) == &x && env->GetDirectBufferCapacity(r.h) == 1234567890123ll, "result", "buffer");
            break;
        }
        case 10: {
            Ref a(env, w.R(), "monitor"), b(env, w.R(), "same monitor");
            auto free = [&] { bool r = false; std::thread([&] { r = w.recv->lock.lock.try_lock(); if(r) w.recv->lock.lock.unlock(); }).join(); return r; };
            MC_CHECK(free(), "setup", "monitor");
            MC_CHECK(env->MonitorEnter(a.h) == 0 && !free(), "result", "monitor is not entered");
            MC_CHECK(env->MonitorEnter(b.h) == 0, "result", "monitor");
            MC_CHECK(env->MonitorExit(a.h) == 0 && !free(), "result", "monitor is left too early");
            MC_CHECK(env->MonitorExit(b.h) == 0 && free(), "result", "monitor is not left");
            break;
        }
        case 11: {
            JNINativeMethod n[] = {{(char*)"nat", (char*)"()I", (void*)(jint(*)(JNIEnv*, jobject))[](JNIEnv*, jobject) -> jint { return 77; }}};
            {
                Ref c(env, (jobject)w.tcl, "class");
                MC_CHECK(env->RegisterNatives(c.c(), n, 1) == 0, "result", "RegisterNatives");
            }
            MC_CHECK(std::any_of(w.tc->methods.begin(), w.tc->methods.end(), [](auto& m) { return m->native && m->name == "nat"; }), "result", "native is not registered");
            {
                Ref c(env, (jobject)w.tcl, "class");
                MC_CHECK(env->UnregisterNatives(c.c()) == 0, "result", "UnregisterNatives");
            }
            MC_CHECK(!std::any_of(w.tc->methods.begin(), w.tc->methods.end(), [](auto& m) { return (bool)m->native; }), "result", "native is still registered");
            break;
        }
        case 12: {
            // Arrays of arrays, with the inner one and the element class through any reference
            auto in = env->NewIntArray(2);
            Ref c(env, (jobject)env->FindClass("[I"), "class"), a(env, in, "init");
            auto o = env->NewObjectArray(2, c.c(), a.h);
            Ref r(env, o, "outer");
            MC_CHECK(env->GetArrayLength(r.as<jarray>()) == 2, "result", "length");
            for(int i = 0; i < 2; ++i) SAME(env->GetObjectArrayElement(r.as<jobjectArray>(), i), in, "inner array");
            MC_CHECK(env->IsSameObject(env->GetObjectClass(r.h), env->FindClass("[[I")), "result", "class of the array");
            break;
        }
        case 13: {
            auto k1 = choose(3), k2 = choose(3);
            Ref a(env, w.R(), "object");
            auto mk = [&](jobject o, int k) { return k == 0 ? env->NewLocalRef(o) : k == 1 ? env->NewGlobalRef(o) : env->NewWeakGlobalRef(o); };
            auto x = mk(a.h, k1), y = mk(x, k2);
            MC_CHECK(env->IsSameObject(x, w.R()) && env->IsSameObject(y, x), "result", "derived reference");
            MC_CHECK(env->GetObjectRefType(y) == (k2 == 0 ? JNILocalRefType : k2 == 1 ? JNIGlobalRefType : JNIWeakGlobalRefType), "result", "kind");
            break;
        }
        }
        mc::transition();
        MC_CHECK(!env->ExceptionCheck(), "exception", "exception");
    }

    // The C++ side: converting references in a fake-jni environment
    void fakejni() {
        FakeJni::Jvm vm;
        FakeJni::LocalFrame frame(vm);
        auto& env = frame.getJniEnv();
        auto t = std::make_shared<Tr>();
        t->id = 4;
        auto l = env.createLocalReference(t);
        MC_CHECK(l, "null-reference", "createLocalReference");
        {
            Ref r(&env, l, "object");
            SAME(env.resolveReference(r.h).get(), (Object*)t.get(), "resolveReference");
        }
        auto g = vm.createGlobalReference(t);
        MC_CHECK(g && env.GetObjectRefType(g) == JNIGlobalRefType, "result", "createGlobalReference");
        std::weak_ptr<Tr> weak = t;
        auto raw = t.get();
        t = nullptr;
        env.DeleteLocalRef(l);
        MC_CHECK(!weak.expired(), "released-early", "global reference");
        {
            Ref r(&env, g, "global");
            SAME(env.resolveReference(r.h).get(), (Object*)raw, "resolveReference");
        }
        env.DeleteGlobalRef(g);
        MC_CHECK(weak.expired(), "released-late", "global reference");
        mc::transition();
    }
}

static int init = [] {
    mc::scenario("methods", methods, 2);
    mc::scenario("fields", fields, 1);
    mc::scenario("arrays", arrays, 1);
    mc::scenario("object-calls", objectCalls, 1);
    mc::scenario("stored", stored, 1);
    mc::scenario("exceptions", exceptions, 1);
    mc::scenario("strings", strings, 1);
    mc::scenario("classes", classes, 1);
    mc::scenario("fake-jni", fakejni, 1);
    return 0;
}();
