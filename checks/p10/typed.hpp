// Hooked functions of every pair of parameter types; PART selects the first type of the pair
#include "../../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct Tr : Tracked<> {
        jint base = 5;
        template<class A, class B> A member(A a, B b);
        template<class A, class B> A memberEnv(ENV* e, A a, B b);
    };
    struct Got {
        int calls;
        void* env, *self, *cls;
        std::vector<unsigned long long> args;
        std::vector<void*> objs;
    } got;
    struct World;
    // One parameter type: its values and how they look on either side
    template<class T> struct P {
        using call = std::conditional_t<std::is_same<T, bool>::value, jboolean, T>;
        static T val(World& w, int i) { return value<T>(i); }
        static jvalue jv(World& w, int i) { jvalue v; memset(&v, 0xEE, sizeof(v)); JT<T>::in(v) = val(w, i); return v; }
        static T var(World& w, int i) { return val(w, i); }
        static unsigned long long key(T v) { return bits(v); }
        static unsigned long long keyj(World& w, jvalue v) { return bits(JT<T>::in(v)); }
        static std::string sig() { return std::string(1, JT<T>::sig); }
        using ret = T;
    };
    struct World {
        VM vm;
        JNIEnv* env = vm.GetJNIEnv();
        ENV* e = E(env);
        std::shared_ptr<Class> cls = e->GetClass<Tr>("p/Tr");
        jclass jc = (jclass)(Object*)cls.get();
        std::shared_ptr<Tr> self = std::make_shared<Tr>(), other = std::make_shared<Tr>();
        jobject js = local(env, self), jo = local(env, other);
        std::shared_ptr<String> str = std::make_shared<String>("text");
        jobject jstr = local(env, str);
        std::shared_ptr<jnivm::Array<jint>> arr = std::make_shared<jnivm::Array<jint>>(3);
        jobject jarr = local(env, arr);
    };
    template<> struct P<bool> {
        static bool val(World&, int i) { return i % 2; }
        static jvalue jv(World& w, int i) { jvalue v; memset(&v, 0, sizeof(v)); v.z = val(w, i); return v; }
        static jboolean var(World& w, int i) { return val(w, i); }
        static unsigned long long key(bool v) { return v; }
        static unsigned long long keyj(World&, jvalue v) { return v.z; }
        static std::string sig() { return "Z"; }
        using ret = jboolean;
    };
    template<class S> unsigned long long addr(S* p) { return (unsigned long long)(void*)static_cast<Object*>(p); }
    template<> struct P<std::shared_ptr<Tr>> {
        static std::shared_ptr<Tr> val(World& w, int i) { return i % 3 == 2 ? nullptr : i % 3 ? w.other : w.self; }
        static jobject var(World& w, int i) { return i % 3 == 2 ? nullptr : i % 3 ? w.jo : w.js; }
        static jvalue jv(World& w, int i) { jvalue v; memset(&v, 0xEE, sizeof(v)); v.l = var(w, i); return v; }
        static unsigned long long key(const std::shared_ptr<Tr>& v) { return v ? addr(v.get()) : 0; }
        static unsigned long long keyj(World& w, jvalue v) { return (unsigned long long)v.l; }
        static std::string sig() { return "Lp/Tr;"; }
        using ret = jobject;
    };
    template<> struct P<std::shared_ptr<String>> {
        static std::shared_ptr<String> val(World& w, int i) { return i % 2 ? nullptr : w.str; }
        static jobject var(World& w, int i) { return i % 2 ? nullptr : w.jstr; }
        static jvalue jv(World& w, int i) { jvalue v; memset(&v, 0xEE, sizeof(v)); v.l = var(w, i); return v; }
        static unsigned long long key(const std::shared_ptr<String>& v) { return v ? addr(v.get()) : 0; }
        static unsigned long long keyj(World& w, jvalue v) { return (unsigned long long)v.l; }
        static std::string sig() { return "Ljava/lang/String;"; }
        using ret = jobject;
    };
    template<> struct P<jobject> {
        static jobject val(World& w, int i) { return var(w, i); }
        static jobject var(World& w, int i) { return i % 3 == 2 ? nullptr : i % 3 ? w.js : w.jarr; }
        static jvalue jv(World& w, int i) { jvalue v; memset(&v, 0xEE, sizeof(v)); v.l = var(w, i); return v; }
        static unsigned long long key(jobject v) { return (unsigned long long)v; }
        static unsigned long long keyj(World& w, jvalue v) { return (unsigned long long)v.l; }
        static std::string sig() { return "Ljava/lang/Object;"; }
        using ret = jobject;
    };
    template<> struct P<std::shared_ptr<jnivm::Array<jint>>> {
        using T = std::shared_ptr<jnivm::Array<jint>>;
        static T val(World& w, int i) { return i % 2 ? nullptr : w.arr; }
        static jobject var(World& w, int i) { return i % 2 ? nullptr : w.jarr; }
        static jvalue jv(World& w, int i) { jvalue v; memset(&v, 0xEE, sizeof(v)); v.l = var(w, i); return v; }
        static unsigned long long key(const T& v) { return v ? addr(v.get()) : 0; }
        static unsigned long long keyj(World& w, jvalue v) { return (unsigned long long)v.l; }
        static std::string sig() { return "[I"; }
        using ret = jobject;
    };
    template<> struct P<void> {
        static std::string sig() { return "V"; }
        using ret = void;
    };

    int salt;
    World* cur;
    template<class...A> void note(void* env, void* self, void* cls, A...a) {
        got.calls++;
        got.env = env; got.self = self; got.cls = cls;
        got.args = {P<A>::key(a)...};
    }
    template<class A, class B> A Tr::member(A a, B b) { note(nullptr, static_cast<Object*>(this), nullptr, a, b); return P<A>::val(*cur, salt + 3); }
    template<class A, class B> A Tr::memberEnv(ENV* e, A a, B b) { note(e, static_cast<Object*>(this), nullptr, a, b); return P<A>::val(*cur, salt + 3); }

    enum Flags { Env = 1, Self = 2, Cls = 4, Virtual = 8 };
    template<class R, class...A, size_t...I> void tryAll(const char* name, int flags, std::index_sequence<I...>) {
        World& w = *cur;
        std::string sig = "(";
        for(auto& s : std::vector<std::string>{P<A>::sig()...}) sig += s;
        sig += ")" + P<R>::sig();
        bool st = flags & Cls;
        auto id = st ? w.env->GetStaticMethodID(w.jc, name, sig.data()) : w.env->GetMethodID(w.jc, name, sig.data());
        bool found = false;
        for(auto& m : w.cls->methods) found |= (jmethodID)m.get() == id && m->nativehandle;
        MC_CHECK(found, "signature", "%s%s is not what the hook is installed as", name, sig.data());
        jvalue vals[sizeof...(A) + 1] = {P<A>::jv(w, salt + (int)I)...};
        std::vector<std::pair<bool, uint64_t>> slots;
        for(size_t i = 0; i < sizeof...(A); ++i) {
            static const std::string sg[] = {P<A>::sig()...};
            char c = sg[i][0];
            if(c == 'F') { double d = vals[i].f; uint64_t u; memcpy(&u, &d, 8); slots.push_back({true, u}); }
            else if(c == 'D') slots.push_back({true, bits(vals[i].d)});
            else if(c == 'J' || c == 'L' || c == '[') slots.push_back({false, bits(vals[i].j)});
            else slots.push_back({false, (uint64_t)(c == 'Z' ? (int)vals[i].z : c == 'B' ? (int)vals[i].b : c == 'C' ? (int)vals[i].c : c == 'S' ? (int)vals[i].s : vals[i].i)});
        }
        std::vector<unsigned long long> want = {P<A>::keyj(w, vals[I])...};
        using J = JT<typename P<R>::ret>;
        for(int kind = 0; kind < 2; ++kind) for(int form = 0; form < 3; ++form) {
            if(kind == 1 && (st || !(flags & Virtual))) continue;
            got = Got();
            auto go = [&]() -> typename P<R>::ret {
                if(form == 0) return st ? J::st(w.env, w.jc, id, P<A>::var(w, salt + (int)I)...) : kind ? J::nv(w.env, w.js, w.jc, id, P<A>::var(w, salt + (int)I)...) : J::call(w.env, w.js, id, P<A>::var(w, salt + (int)I)...);
                if(form == 1) {
                    VaArgs va;
                    va.build(slots, kind ? 4 : 3);
                    return va.with([&](va_list l) -> typename P<R>::ret { return st ? J::stV(w.env, w.jc, id, l) : kind ? J::nvV(w.env, w.js, w.jc, id, l) : J::callV(w.env, w.js, id, l); });
                }
                return st ? J::stA(w.env, w.jc, id, vals) : kind ? J::nvA(w.env, w.js, w.jc, id, vals) : J::callA(w.env, w.js, id, vals);
            };
            const char* fn = form == 0 ? "variadic" : form == 1 ? "va_list" : "array";
            if constexpr(std::is_void<R>::value) go();
            else {
                auto r = go();
                jvalue v;
                memset(&v, 0, sizeof(v));
                memcpy(&v, &r, sizeof(r));
                auto k = P<R>::keyj(w, v), x = P<R>::key(P<R>::val(w, salt + 3));
                MC_CHECK(k == x, "result", "%s%s %s returned %llx instead of %llx", name, sig.data(), fn, k, x);
            }
            MC_CHECK(!w.env->ExceptionCheck(), "exception", "%s%s %s raised", name, sig.data(), fn);
            MC_CHECK(got.calls == 1, "calls", "%s%s %s ran %d times", name, sig.data(), fn, got.calls);
            if(flags & Env) MC_CHECK(got.env == w.e || got.env == w.env, "environment", "%s%s", name, sig.data());
            if(flags & Self) MC_CHECK(got.self == w.js, "receiver", "%s%s", name, sig.data());
            if(flags & Cls && got.cls) MC_CHECK(got.cls == w.jc, "class", "%s%s", name, sig.data());
            for(size_t i = 0; i < sizeof...(A); ++i) MC_CHECK(got.args[i] == want[i], "argument", "%s%s %s: argument %zu arrived as %llx instead of %llx", name, sig.data(), fn, i, got.args[i], want[i]);
            mc::transition();
        }
        // The same from C++
        if(!(flags & 16)) {
            got = Got();
            Method* m = (Method*)id;
            if(st) m->invoke(*w.env, w.cls.get(), P<A>::val(w, salt + (int)I)...);
            else m->invoke(*w.env, w.self.get(), P<A>::val(w, salt + (int)I)...);
            MC_CHECK(got.calls == 1, "calls", "%s%s invoked from C++ ran %d times", name, sig.data(), got.calls);
            for(size_t i = 0; i < sizeof...(A); ++i) MC_CHECK(got.args[i] == want[i], "argument", "%s%s invoked from C++: argument %zu arrived as %llx instead of %llx", name, sig.data(), i, got.args[i], want[i]);
            mc::transition();
        }
        w.cls->methods.clear();
    }
    template<class R, class...A> void tryIt(const char* name, int flags) { tryAll<R, A...>(name, flags, std::index_sequence_for<A...>()); }

    template<class A, class B> void pair() {
        World w;
        cur = &w;
        for(salt = 0; salt < 6; ++salt) {
            w.env->PushLocalFrame(0);
            auto c = w.cls.get();
            c->Hook(w.e, "a", [](A a, B b) -> A { note(nullptr, nullptr, nullptr, a, b); return P<A>::val(*cur, salt + 3); });
            tryIt<A, A, B>("a", Cls);
            c->Hook(w.e, "b", [](ENV* e, Class* cl, A a, B b) -> B { note(e, nullptr, static_cast<Object*>(cl), a, b); return P<B>::val(*cur, salt + 3); });
            tryIt<B, A, B>("b", Cls | Env);
            c->HookInstanceFunction(w.e, "c", [](JNIEnv* e, Object* self, A a, B b) { note(e, self, nullptr, a, b); });
            tryIt<void, A, B>("c", Env | Self | Virtual);
            c->Hook(w.e, "d", &Tr::member<A, B>);
            tryIt<A, A, B>("d", Self);
            w.env->PopLocalFrame(nullptr);
        }
    }
    template<class A, class...B> void row(int k) {
        int i = 0;
        (void)std::initializer_list<int>{(i++ == k ? (pair<A, B>(), 0) : 0)...};
    }
}
#define TYPES jboolean, jbyte, jchar, jshort, jint, jlong, jfloat, jdouble, bool, std::shared_ptr<Tr>, std::shared_ptr<String>, jobject, std::shared_ptr<jnivm::Array<jint>>
#define NTYPES 13
