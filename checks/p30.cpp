// P30: results of members without implementation and of calls that raised
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct Def : Tracked<> {};
    struct Derived : Tracked<Extends<Def>> {};
    struct NoDef : Extends<> { NoDef(int) {} };
    enum Vm { Permissive, Strict, Fake, FakePermissive, Baron_, VMS };
#ifdef JNI_RETURN_NON_ZERO
    constexpr bool nonzero = true;
#else
    constexpr bool nonzero = false;
#endif
    struct World {
        std::shared_ptr<void> vm;
        JavaVM* j;
        JNIEnv* env;
        ENV* e;
        jclass jc;
        std::shared_ptr<Class> cls;
        jobject obj;
        int kind;
        bool reg = false;
        template<class T> void make(const std::shared_ptr<T>& v) { j = ((VM*)v.get())->GetJavaVM(); vm = v; }
        World(int kind, bool registerNow) : kind(kind) {
            switch(kind) {
            case Permissive: make(std::make_shared<VM>()); break;
            case Strict: make(std::make_shared<VM>(false, true)); break;
            case Fake: make(std::make_shared<FakeJni::Jvm>()); break;
            case FakePermissive: make(std::make_shared<FakeJni::Jvm>(false, false)); break;
            default: make(std::make_shared<Baron::Jvm>()); break;
            }
            j->GetEnv((void**)&env, JNI_VERSION_1_6);
            e = E(env);
            if(registerNow) types();
            struct Caller : Extends<> {};
            cls = e->GetClass<Caller>("p/Caller");
            jc = (jclass)(Object*)cls.get();
            obj = local(env, std::make_shared<Caller>());
        }
        ~World() {
            // References of this thread belong to the environment
            j->DetachCurrentThread();
        }
        void types() {
            e->GetClass<Def>("p/Def");
            e->GetClass<Derived>("p/Derived");
            e->GetClass<NoDef>("p/NoDef");
            reg = true;
        }
    };
    // What a default result of this type looks like
    enum Want { Null, ArrayOf, Object_, Dummy };
    Want wanted(World& w, const std::string& type) {
        if(!nonzero) return Null;
        if(type[0] == '[') return ArrayOf;
        auto is = [&](const char* n) { return type == std::string("L") + n + ";"; };
#define BUILTIN(n, T) if(is(n)) return std::is_default_constructible<T>::value ? Object_ : Null;
        BUILTIN("java/lang/Object", Object) BUILTIN("java/lang/String", String) BUILTIN("java/lang/Class", Class)
        BUILTIN("java/nio/ByteBuffer", ByteBuffer) BUILTIN("java/lang/Throwable", Throwable)
        BUILTIN("java/lang/reflect/Method", Method) BUILTIN("java/lang/reflect/Field", Field)
        if(w.reg) {
            if(is("p/Def") || is("p/Derived")) return Object_;
            if(is("p/NoDef")) return Null;
        }
        return Dummy;
    }
    void expect(World& w, const std::string& type, jobject r, const char* what) {
        auto want = wanted(w, type);
        if(want == Null) {
            MC_CHECK(!r, "result", "%s of type %s gave an object instead of null", what, type.data());
            return;
        }
        MC_CHECK(r, "result", "%s of type %s gave null", what, type.data());
        auto o = unwrap<Object>(w.env, r);
        MC_CHECK(w.env->GetObjectRefType(r) == JNILocalRefType, "reference", "%s of type %s is no local reference", what, type.data());
        auto name = type[0] == 'L' ? type.substr(1, type.size() - 2) : type;
        auto c = unwrap<Class>(w.env, w.env->GetObjectClass(r));
        MC_CHECK(c && c->nativeprefix == name, "class", "%s of type %s gave a %s", what, type.data(), c ? c->nativeprefix.data() : "?");
        auto fc = w.env->FindClass(name.data());
        MC_CHECK(fc && w.env->IsSameObject(fc, w.env->GetObjectClass(r)) && w.env->IsInstanceOf(r, fc), "class", "%s of type %s is no instance of it", what, type.data());
        if(want == ArrayOf) {
            MC_CHECK(w.env->GetArrayLength((jarray)r) == 0, "array", "%s of type %s is not empty", what, type.data());
#define PRIM(C, T) if(type == "[" C) MC_CHECK(unwrap<jnivm::Array<T>>(w.env, r), "native", "%s of type %s has other elements", what, type.data());
            PRIM("Z", jboolean) PRIM("B", jbyte) PRIM("C", jchar) PRIM("S", jshort) PRIM("I", jint) PRIM("J", jlong) PRIM("F", jfloat) PRIM("D", jdouble)
            if(type[1] == 'L' || type[1] == '[') MC_CHECK(unwrap<jnivm::Array<Object>>(w.env, r), "native", "%s of type %s is no array of objects", what, type.data());
        }
        if(name == "p/Def") MC_CHECK((bool)std::dynamic_pointer_cast<Def>(o) == w.reg, "native", "%s of type %s", what, type.data());
        if(name == "p/Derived") MC_CHECK((bool)std::dynamic_pointer_cast<Derived>(o) == w.reg, "native", "%s of type %s", what, type.data());
        if(name == "java/lang/String") MC_CHECK(w.env->GetStringLength((jstring)r) == 0, "native", "%s: string", what);
    }
    const char* const names[] = {"java/lang/Object", "java/lang/String", "java/lang/Class", "java/nio/ByteBuffer", "java/lang/Throwable", "java/lang/reflect/Method", "java/lang/reflect/Field",
        "p/Def", "p/Derived", "p/NoDef", "p/Dummy", "q/r/Never$Seen", "X"};
    constexpr int NAMES = sizeof(names) / sizeof(*names);
    std::string typeNo(int base, int dims) {
        return std::string(dims, '[') + (base < 8 ? std::string(1, "ZBCSIJFD"[base]) : std::string("L") + names[base - 8] + ";");
    }
    template<class R> R callKind(World& w, int kind, int form, jmethodID id, jmethodID sid, VaArgs& va, jvalue* a) {
        using J = JT<R>;
        switch(kind * 3 + form) {
        case 0: return J::st(w.env, w.jc, sid, 1);
        case 1: return va.with([&](va_list l) { return J::stV(w.env, w.jc, sid, l); });
        case 2: return J::stA(w.env, w.jc, sid, a);
        case 3: return J::call(w.env, w.obj, id, 1);
        case 4: return va.with([&](va_list l) { return J::callV(w.env, w.obj, id, l); });
        case 5: return J::callA(w.env, w.obj, id, a);
        case 6: return J::nv(w.env, w.obj, w.jc, id, 1);
        case 7: return va.with([&](va_list l) { return J::nvV(w.env, w.obj, w.jc, id, l); });
        default: return J::nvA(w.env, w.obj, w.jc, id, a);
        }
    }
    // All types of results of all kinds of members without implementation
    template<class R> void zero(World& w, int kind, int form, jmethodID id, jmethodID sid, jfieldID f, jfieldID sf, VaArgs& va, jvalue* a) {
        R r = kind == 3 ? form ? JT<R>::sget(w.env, w.jc, sf) : JT<R>::get(w.env, w.obj, f) : callKind<R>(w, kind, form, id, sid, va, a);
        MC_CHECK(bits(r) == 0, "result", "%s without implementation: %llx", JT<R>::name(), bits(r));
    }
    void declared() {
        int vm = choose(3);
        World w(vm == 0 ? Permissive : vm == 1 ? FakePermissive : Baron_, choose(2));
        int dims = choose(mc::bound(9, 6, 17, 9)), base = choose(8 + NAMES), kind = choose(5), form = choose(kind == 3 ? 2 : 3);
        auto type = typeNo(base, dims);
        log("vm %d: kind %d form %d of type %s", vm, kind, form, type.data());
        w.env->PushLocalFrame(0);
        auto before = Def::alive() + Derived::alive();
        auto sig = "(I)" + type;
        jmethodID id = w.env->GetMethodID(w.jc, "m", sig.data()), sid = w.env->GetStaticMethodID(w.jc, "m", sig.data());
        jfieldID f = w.env->GetFieldID(w.jc, "f", type.data()), sf = w.env->GetStaticFieldID(w.jc, "f", type.data());
        MC_CHECK(id && sid && f && sf, "declared", "no id");
        jvalue a[1] = {};
        VaArgs va;
        va.build({{false, 1}}, kind == 2 ? 4 : 3);
        if(kind == 4) {
            // A constructor gives an object of its class
            if(dims || base < 8) { w.env->PopLocalFrame(nullptr); return; }
            auto c = w.env->FindClass(names[base - 8]);
            auto ctor = w.env->GetMethodID(c, "<init>", "(I)V");
            for(int i = 0; i < 2; ++i) {
                auto r = form == 0 ? w.env->NewObject(c, ctor, 1) : form == 1 ? va.with([&](va_list l) { return w.env->NewObjectV(c, ctor, l); }) : w.env->NewObjectA(c, ctor, a);
                expect(w, type, r, "construction");
                MC_CHECK(!w.env->ExceptionCheck(), "exception", "unexpected");
                mc::transition();
            }
        } else if(!dims && base < 8) {
            switch(base) {
            case 0: zero<jboolean>(w, kind, form, id, sid, f, sf, va, a); break;
            case 1: zero<jbyte>(w, kind, form, id, sid, f, sf, va, a); break;
            case 2: zero<jchar>(w, kind, form, id, sid, f, sf, va, a); break;
            case 3: zero<jshort>(w, kind, form, id, sid, f, sf, va, a); break;
            case 4: zero<jint>(w, kind, form, id, sid, f, sf, va, a); break;
            case 5: zero<jlong>(w, kind, form, id, sid, f, sf, va, a); break;
            case 6: zero<jfloat>(w, kind, form, id, sid, f, sf, va, a); break;
            case 7: zero<jdouble>(w, kind, form, id, sid, f, sf, va, a); break;
            }
            mc::transition();
        } else {
            jobject last = nullptr;
            for(int i = 0; i < 3; ++i) {
                jobject r = kind == 3 ? form ? w.env->GetStaticObjectField(w.jc, sf) : w.env->GetObjectField(w.obj, f) : callKind<jobject>(w, kind, form, id, sid, va, a);
                expect(w, type, r, kind == 3 ? "field" : "method");
                MC_CHECK(!r || !w.env->IsSameObject(r, last), "shared", "the same object twice");
                MC_CHECK(!w.env->ExceptionCheck(), "exception", "unexpected");
                last = r;
                mc::transition();
            }
        }
        w.env->PopLocalFrame(nullptr);
        MC_CHECK(Def::alive() + Derived::alive() == before, "kept", "default results survive their frame");
        mc::state(mc::mix(mc::mix(vm * 2 + w.reg, dims), base * 100 + kind * 10 + form));
    }
    // Implementations which raise, also where nothing can be declared
    template<class R> void raising(World& w, const char* type, bool needs) {
        int kind = choose(3), form = choose(3);
        if(needs && !w.reg) return;
        w.env->PushLocalFrame(0);
        auto before = Def::alive() + Derived::alive();
        w.cls->HookInstanceFunction(w.e, "m", [](Object*, jint) -> R { throw std::runtime_error("raised"); });
        w.cls->Hook(w.e, "m", [](Class*, jint) -> R { throw std::runtime_error("raised"); });
        auto sig = std::string("(I)") + type;
        jmethodID id = w.env->GetMethodID(w.jc, "m", sig.data()), sid = w.env->GetStaticMethodID(w.jc, "m", sig.data());
        MC_CHECK(id && sid, "signature", "%s", sig.data());
        log("vm %d: kind %d form %d of type %s", w.kind, kind, form, type);
        jvalue a[1] = {};
        VaArgs va;
        va.build({{false, 1}}, kind == 2 ? 4 : 3);
        for(int i = 0; i < 2; ++i) {
            jobject r = callKind<jobject>(w, kind, form, id, sid, va, a);
            MC_CHECK(w.env->ExceptionCheck(), "exception", "lost");
            w.env->ExceptionClear();
            expect(w, type, r, "raising method");
            mc::transition();
        }
        w.env->PopLocalFrame(nullptr);
        MC_CHECK(Def::alive() + Derived::alive() == before, "kept", "default results survive their frame");
        mc::state(mc::mix(mc::mix(w.kind, w.reg), std::hash<std::string>()(type) + kind * 3 + form));
    }
    template<class T> using Arr = std::shared_ptr<jnivm::Array<T>>;
    void raises() {
        World w(choose(VMS), choose(2));
        switch(choose(18)) {
        case 0: raising<std::shared_ptr<String>>(w, "Ljava/lang/String;", false); break;
        case 1: raising<std::shared_ptr<Object>>(w, "Ljava/lang/Object;", false); break;
        case 2: raising<jobject>(w, "Ljava/lang/Object;", false); break;
        case 3: raising<std::shared_ptr<Def>>(w, "Lp/Def;", true); break;
        case 4: raising<std::shared_ptr<Derived>>(w, "Lp/Derived;", true); break;
        case 5: raising<std::shared_ptr<NoDef>>(w, "Lp/NoDef;", true); break;
        case 6: raising<Arr<jboolean>>(w, "[Z", false); break;
        case 7: raising<Arr<jbyte>>(w, "[B", false); break;
        case 8: raising<Arr<jint>>(w, "[I", false); break;
        case 9: raising<Arr<jdouble>>(w, "[D", false); break;
        case 10: raising<Arr<String>>(w, "[Ljava/lang/String;", false); break;
        case 11: raising<Arr<Def>>(w, "[Lp/Def;", true); break;
        case 12: raising<Arr<NoDef>>(w, "[Lp/NoDef;", true); break;
        case 13: raising<Arr<jnivm::Array<jint>>>(w, "[[I", false); break;
        case 14: raising<Arr<jnivm::Array<Def>>>(w, "[[Lp/Def;", true); break;
        case 15: raising<Arr<jnivm::Array<jnivm::Array<jlong>>>>(w, "[[[J", false); break;
        case 16: raising<std::shared_ptr<Class>>(w, "Ljava/lang/Class;", false); break;
        case 17: raising<std::shared_ptr<Throwable>>(w, "Ljava/lang/Throwable;", false); break;
        }
    }
    // Registering the native types changes what the following calls return
    void order() {
        int vm = choose(3);
        World w(vm == 0 ? Permissive : vm == 1 ? FakePermissive : Baron_, false);
        int n = mc::bound(6, 5, 7, 6);
        for(int i = 0; i < n; ++i) {
            int op = choose(7);
            if(op == 0) { log("register"); w.types(); mc::transition(); continue; }
            if(op == 1) { log("find"); w.env->FindClass("p/Def"); w.env->FindClass("[[Lp/Derived;"); mc::transition(); continue; }
            static const char* const types[] = {"Lp/Def;", "Lp/NoDef;", "Lp/Derived;", "[Lp/Def;", "[[Lp/Derived;"};
            auto type = types[op - 2];
            log("call of type %s", type);
            auto id = w.env->GetMethodID(w.jc, "m", (std::string("()") + type).data());
            expect(w, type, w.env->CallObjectMethod(w.obj, id), "method");
            mc::transition();
            mc::state(w.reg);
        }
    }
    int init = [] {
        mc::scenario("declared", declared, 3);
        mc::scenario("raises", raises, 2);
        mc::scenario("order", order, 2);
        return 0;
    }();
}
