// P10: arguments and results through all calling forms
// (1) raw: every signature up to a length, dispatched to a recording method handle
// (2) typed: hooked functions of all pairs of parameter types and of long parameter lists
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct Tr : Tracked<> {
        std::shared_ptr<Object> extra;
    };
    struct Rec {
        int calls = 0;
        char kind = 0;
        ENV* env = nullptr;
        jobject obj = nullptr;
        Class* cls = nullptr;
        const jvalue* values = nullptr;
        std::vector<jvalue> got;
        size_t want = 0;
        void operator()(char k, ENV* e, jobject o, Class* c, const jvalue* v) {
            calls++;
            kind = k; env = e; obj = o; cls = c; values = v;
            got.assign(v, v + want);
        }
    } rec;
    int salt;
    jobject retObject;
    template<class T> T result() { return value<T>(salt); }
    template<> jobject result<jobject>() { return retObject; }
    template<> void result<void>() {}
    template<class T> using MB = jnivm::impl::MethodHandleBase<T>;
    struct Recorder : jnivm::MethodHandle {
#define REC(T) \
        T InstanceInvoke(ENV* e, jobject o, const jvalue* v, MB<T>) override { rec('I', e, o, nullptr, v); return result<T>(); } \
        T NonVirtualInstanceInvoke(ENV* e, jobject o, const jvalue* v, MB<T>) override { rec('N', e, o, nullptr, v); return result<T>(); } \
        T StaticInvoke(ENV* e, Class* c, const jvalue* v, MB<T>) override { rec('S', e, nullptr, c, v); return result<T>(); }
        REC(jobject) REC(jboolean) REC(jbyte) REC(jchar) REC(jshort) REC(jint) REC(jlong) REC(jfloat) REC(jdouble) REC(void)
    };

    // A parameter: its type in the signature, its value and how a C++ caller passes it
    struct Arg {
        std::string type;
        jvalue v;
        bool fp;
        uint64_t slot;
        size_t size;
    };
    template<class T> Arg prim(T x) {
        Arg a;
        a.type = std::string(1, JT<T>::sig);
        memset(&a.v, 0, sizeof(a.v));
        JT<T>::in(a.v) = x;
        a.size = sizeof(T);
        a.fp = std::is_floating_point<T>::value;
        if(a.fp) { double d = (double)x; memcpy(&a.slot, &d, 8); }
        else if(sizeof(T) == 8) { a.slot = (uint64_t)x; }
        // Promoted to int, the upper half of the register is undefined
        else a.slot = (uint32_t)(int32_t)x | 0xA5A5A5A500000000ull;
        return a;
    }
    Arg ref(const char* type, jobject o) {
        Arg a;
        a.type = type;
        memset(&a.v, 0, sizeof(a.v));
        a.v.l = o;
        a.size = 8;
        a.fp = false;
        a.slot = (uint64_t)o;
        return a;
    }
    constexpr int KINDS = 13;
    Arg makeArg(int kind, int salt, jobject o) {
        switch(kind) {
        case 0: return prim<jint>(value<jint>(salt));
        case 1: return prim<jdouble>(value<jdouble>(salt));
        case 2: return ref("Lp/Tr;", salt % 3 == 2 ? nullptr : o);
        case 3: return prim<jlong>(value<jlong>(salt));
        case 4: return prim<jfloat>(value<jfloat>(salt));
        case 5: return prim<jbyte>(value<jbyte>(salt));
        case 6: return prim<jboolean>(value<jboolean>(salt));
        case 7: return prim<jchar>(value<jchar>(salt));
        case 8: return prim<jshort>(value<jshort>(salt));
        case 9: return ref("[I", o);
        case 10: return ref("[[Lp/II$D;", salt % 2 ? o : nullptr);
        case 11: return ref("LJ;", o);
        default: return ref("[[[D", o);
        }
    }

    // A real variadic call with any list of arguments
    constexpr int SHORT = 12, LONG = 512;
    template<class R, int N> struct Variadic;
    struct Regs { uint64_t g[6]; double d[8]; uint64_t over[LONG]; int n; };
    Regs regs(const std::vector<Arg>& args, int used) {
        Regs r;
        memset(&r, 0xA5, sizeof(r));
        int g = used, f = 0;
        r.n = 0;
        for(auto& a : args) {
            if(a.fp) {
                if(f < 8) memcpy(&r.d[f++], &a.slot, 8);
                else r.over[r.n++] = a.slot;
            } else {
                if(g < 6) r.g[g++] = a.slot;
                else r.over[r.n++] = a.slot;
            }
        }
        return r;
    }
    template<class R, class F, size_t...I> R vcall3(F f, JNIEnv* e, jobject o, jmethodID m, Regs& r, std::index_sequence<I...>) {
        return f(e, o, m, r.g[3], r.g[4], r.g[5], r.d[0], r.d[1], r.d[2], r.d[3], r.d[4], r.d[5], r.d[6], r.d[7], r.over[I]...);
    }
    template<class R, class F, size_t...I> R vcall4(F f, JNIEnv* e, jobject o, jclass c, jmethodID m, Regs& r, std::index_sequence<I...>) {
        return f(e, o, c, m, r.g[4], r.g[5], r.d[0], r.d[1], r.d[2], r.d[3], r.d[4], r.d[5], r.d[6], r.d[7], r.over[I]...);
    }
    template<class R, class F> R variadic3(F f, JNIEnv* e, jobject o, jmethodID m, Regs& r) {
        if(r.n <= SHORT) return vcall3<R>(f, e, o, m, r, std::make_index_sequence<SHORT>());
        return vcall3<R>(f, e, o, m, r, std::make_index_sequence<LONG>());
    }
    template<class R, class F> R variadic4(F f, JNIEnv* e, jobject o, jclass c, jmethodID m, Regs& r) {
        if(r.n <= SHORT) return vcall4<R>(f, e, o, c, m, r, std::make_index_sequence<SHORT>());
        return vcall4<R>(f, e, o, c, m, r, std::make_index_sequence<LONG>());
    }
    template<class R> struct Fn;
#define FN(T, Name) template<> struct Fn<T> { \
        static auto i(JNIEnv* e) { return (T(*)(JNIEnv*, jobject, jmethodID, ...))e->functions->Call##Name##Method; } \
        static auto n(JNIEnv* e) { return (T(*)(JNIEnv*, jobject, jclass, jmethodID, ...))e->functions->CallNonvirtual##Name##Method; } \
        static auto s(JNIEnv* e) { return (T(*)(JNIEnv*, jobject, jmethodID, ...))e->functions->CallStatic##Name##Method; } };
    FN(jobject, Object) FN(jboolean, Boolean) FN(jbyte, Byte) FN(jchar, Char) FN(jshort, Short) FN(jint, Int) FN(jlong, Long) FN(jfloat, Float) FN(jdouble, Double) FN(void, Void)

    struct Raw {
        VM vm;
        JNIEnv* env = vm.GetJNIEnv();
        ENV* e = E(env);
        std::shared_ptr<Class> cls = e->GetClass<Tr>("p/Tr");
        jclass jc = (jclass)(Object*)cls.get();
        std::shared_ptr<Tr> self = std::make_shared<Tr>(), arg = std::make_shared<Tr>();
        jobject js = local(env, self), ja = local(env, arg);
        Raw() { retObject = ja; }
        std::shared_ptr<Method> method(bool st, const char* name, const std::string& sig) {
            auto m = std::make_shared<Method>();
            m->name = name;
            m->signature = sig;
            m->_static = st;
            m->nativehandle = std::make_shared<Recorder>();
            cls->methods.push_back(m);
            return m;
        }
        void verify(const std::vector<Arg>& args, char kind, const char* form) {
            MC_CHECK(!env->ExceptionCheck(), "exception", "%c %s raised", kind, form);
            MC_CHECK(rec.calls == 1, "calls", "%c %s: the implementation ran %d times", kind, form, rec.calls);
            MC_CHECK(rec.kind == kind, "kind", "%c %s invoked as %c", kind, form, rec.kind);
            MC_CHECK(rec.env == e, "environment", "%c %s: another environment", kind, form);
            if(kind == 'S') MC_CHECK(rec.cls == cls.get(), "class", "%c %s: another class", kind, form);
            else MC_CHECK(rec.obj == js, "receiver", "%c %s: another receiver", kind, form);
            for(size_t i = 0; i < args.size(); ++i)
                MC_CHECK(!memcmp(&rec.got[i], &args[i].v, args[i].size), "argument", "%c %s: argument %zu of type %s arrived as %llx instead of %llx", kind, form, i, args[i].type.data(), bits(rec.got[i].j), bits(args[i].v.j));
        }
        template<class R> void resultIs(R r, const char* form) {
            R w = result<R>();
            MC_CHECK(!memcmp(&r, &w, sizeof(R)), "result", "%s returned %llx instead of %llx", form, bits(r), bits(w));
        }
        template<class R> void forms(const std::vector<Arg>& args, const std::string& params) {
            std::string sig = "(" + params + ")" + (JT<R>::sig == 'L' ? "Lp/Tr;" : std::string(1, JT<R>::sig));
            auto mi = method(false, "i", sig), ms = method(true, "s", sig);
            std::vector<jvalue> vals;
            std::vector<std::pair<bool, uint64_t>> slots;
            for(auto& a : args) { vals.push_back(a.v); slots.push_back({a.fp, a.slot}); }
            vals.push_back({});
            Regs r3 = regs(args, 3), r4 = regs(args, 4);
            rec.want = args.size();
            for(int kind = 0; kind < 3; ++kind) for(int form = 0; form < 3; ++form) {
                rec.calls = 0;
                auto id = (jmethodID)(kind == 0 ? ms : mi).get();
                char k = "SIN"[kind];
                const char* fn = form == 0 ? "variadic" : form == 1 ? "va_list" : "array";
                auto go = [&]() -> R {
                    if(form == 2) return kind == 0 ? JT<R>::stA(env, jc, id, vals.data()) : kind == 1 ? JT<R>::callA(env, js, id, vals.data()) : JT<R>::nvA(env, js, jc, id, vals.data());
                    if(form == 1) {
                        VaArgs va;
                        va.build(slots, kind == 2 ? 4 : 3);
                        return va.with([&](va_list l) -> R { return kind == 0 ? JT<R>::stV(env, jc, id, l) : kind == 1 ? JT<R>::callV(env, js, id, l) : JT<R>::nvV(env, js, jc, id, l); });
                    }
                    return kind == 0 ? variadic3<R>(Fn<R>::s(env), env, jc, id, r3) : kind == 1 ? variadic3<R>(Fn<R>::i(env), env, js, id, r3) : variadic4<R>(Fn<R>::n(env), env, js, jc, id, r4);
                };
                if constexpr(std::is_void<R>::value) go();
                else resultIs<R>(go(), fn);
                verify(args, k, fn);
                if(form == 2) MC_CHECK(rec.values == vals.data() || args.empty() || !memcmp(rec.got.data(), vals.data(), 0), "argument", "array");
                mc::transition();
            }
            cls->methods.clear();
        }
        void construct(const std::vector<Arg>& args, const std::string& params) {
            method(true, "<init>", "(" + params + ")Lp/Tr;");
            auto id = env->GetMethodID(jc, "<init>", ("(" + params + ")V").data());
            MC_CHECK(id == (jmethodID)cls->methods[0].get() && cls->methods.size() == 1, "constructor", "the constructor %s is not found", params.data());
            std::vector<jvalue> vals;
            std::vector<std::pair<bool, uint64_t>> slots;
            for(auto& a : args) { vals.push_back(a.v); slots.push_back({a.fp, a.slot}); }
            vals.push_back({});
            Regs r3 = regs(args, 3);
            rec.want = args.size();
            for(int form = 0; form < 3; ++form) {
                rec.calls = 0;
                jobject o;
                if(form == 2) o = env->NewObjectA(jc, id, vals.data());
                else if(form == 1) {
                    VaArgs va;
                    va.build(slots, 3);
                    o = va.with([&](va_list l) { return env->functions->NewObjectV(env, jc, id, l); });
                } else o = variadic3<jobject>((jobject(*)(JNIEnv*, jobject, jmethodID, ...))env->functions->NewObject, env, jc, id, r3);
                MC_CHECK(o == retObject, "result", "constructed object");
                verify(args, 'S', form == 0 ? "NewObject" : form == 1 ? "NewObjectV" : "NewObjectA");
                mc::transition();
            }
            cls->methods.clear();
        }
        void all(const std::vector<Arg>& args, int returns) {
            std::string params;
            for(auto& a : args) params += a.type;
            log("parameters %s", params.data());
            env->PushLocalFrame(0);
            forms<void>(args, params);
            if(returns > 0) { forms<jobject>(args, params); construct(args, params); }
            if(returns > 1) { forms<jlong>(args, params); forms<jdouble>(args, params); forms<jfloat>(args, params); forms<jint>(args, params); }
            if(returns > 2) { forms<jboolean>(args, params); forms<jbyte>(args, params); forms<jchar>(args, params); forms<jshort>(args, params); }
            env->PopLocalFrame(nullptr);
        }
    };
    void signatures(int len) {
        int n = choose(len + 1);
        std::vector<Arg> args;
        salt = choose(2);
        std::vector<int> k;
        for(int i = 0; i < n; ++i) k.push_back(choose(n < 4 ? KINDS : 9));
        Raw w;
        for(int i = 0; i < n; ++i) args.push_back(makeArg(k[i], 2 * i + salt, i % 2 ? w.ja : w.js));
        w.all(args, n < 3 ? 3 : n == 3 ? 1 : 0);
    }
    // Long lists: a repeated block of types after a prefix
    void lists(int max) {
        int n = chooseSize(max);
        int block = 1 + choose(3);
        std::vector<int> b;
        for(int i = 0; i < block; ++i) b.push_back(choose(5) * 2);
        int lead = choose(KINDS);
        salt = n;
        Raw w;
        std::vector<Arg> args;
        for(int i = 0; i < n; ++i) args.push_back(makeArg(i == 0 || i == n - 1 ? lead : b[i % block], i, i % 2 ? w.ja : w.js));
        w.all(args, n < 40 ? 1 : 0);
    }
    // All values of a single parameter and result
    void values() {
        int t = choose(8), part = choose(16);
        Raw w;
        auto one = [&](Arg a, auto set) {
            std::vector<Arg> args = {a};
            w.env->PushLocalFrame(0);
            set();
            w.env->PopLocalFrame(nullptr);
        };
        auto run = [&](auto x) {
            using T = decltype(x);
            w.env->PushLocalFrame(0);
            w.forms<void>({prim<T>(x)}, std::string(1, JT<T>::sig));
            w.env->PopLocalFrame(nullptr);
        };
        auto edge = [&](auto tag) {
            using T = decltype(tag);
            for(int i = 0; i < 64; ++i) {
                if(i % 16 != part) continue;
                for(int d = -1; d <= 1; ++d) run((T)(((uint64_t)1 << i) + d)), run((T)(~((uint64_t)1 << i) + d));
            }
        };
        if(t == 0) for(int i = part; i < 256; i += 16) run((jboolean)i);
        if(t == 1) for(int i = part; i < 256; i += 16) run((jbyte)i);
        if(t == 2) for(int i = part; i < 65536; i += 16) run((jchar)i);
        if(t == 3) for(int i = part; i < 65536; i += 16) run((jshort)i);
        if(t == 4) edge(jint());
        if(t == 5) edge(jlong());
        // Every exponent, the bits of numbers which are none included (signaling ones do not survive the promotion by the caller)
        if(t == 6) for(uint32_t e = part; e < 512; e += 16) for(uint32_t m : {0u, 1u, 0x2aaaaau, 0x400000u, 0x400001u, 0x512345u, 0x7fffffu}) {
            if((e & 255) == 255 && m && m < 0x400000) continue;
            uint32_t b = e << 23 | m;
            jfloat f;
            memcpy(&f, &b, 4);
            run(f);
        }
        if(t == 7) for(uint64_t e = part; e < 4096; e += 16) for(uint64_t m : {0ull, 1ull, 0xaaaaaaaaaaaaaull, 0x8000000000000ull, 0x8000000000001ull, 0xfffffffffffffull}) {
            if((e & 2047) == 2047 && m && m < 0x8000000000000ull) continue;
            uint64_t b = e << 52 | m;
            jdouble f;
            memcpy(&f, &b, 8);
            run(f);
        }
    }
    // All values of a result
    template<class R> struct Ret {
        static R v;
        static void run(Raw& w) {
            int n = 0;
            auto& cl = *w.cls;
            cl.HookInstanceFunction(w.e, "r", []() -> R { return v; });
            cl.Hook(w.e, "s", []() -> R { return v; });
            auto sig = std::string("()") + JT<R>::sig;
            auto id = w.env->GetMethodID(w.jc, "r", sig.data()), sid = w.env->GetStaticMethodID(w.jc, "s", sig.data());
            for(int i = 0; i < (sizeof(R) == 1 ? 256 : sizeof(R) == 2 ? 65536 : 3 * 64); ++i) {
                if(sizeof(R) <= 2) v = (R)i;
                else if(std::is_floating_point<R>::value) {
                    // Not numbers with all kinds of bits, or every third exponent
                    int mant = sizeof(R) == 4 ? 23 : 52;
                    uint64_t top = i < 64 ? (sizeof(R) == 4 ? 255 : 2047) : (uint64_t)i * (sizeof(R) == 4 ? 2 : 21);
                    uint64_t b = (top << mant) | (uint64_t)1 << (mant - 1) | (i < 64 ? (uint64_t)i << (mant - 7) | (i & 7) : value<jlong>(i) & 0xffff);
                    if(i & 1) b |= (uint64_t)1 << (sizeof(R) * 8 - 1);
                    if(i > 180) v = value<R>(i); else memcpy(&v, &b, sizeof(R));
                }
                else v = (R)(((uint64_t)1 << (i / 3)) + (i % 3) - 1);
                jvalue none[1];
                MC_CHECK(same(JT<R>::call(w.env, w.js, id), v) && same(JT<R>::callA(w.env, w.js, id, none), v) && same(JT<R>::nv(w.env, w.js, w.jc, id), v) && same(JT<R>::st(w.env, w.jc, sid), v) && same(JT<R>::stA(w.env, w.jc, sid, none), v),
                    "result", "%s result %llx", JT<R>::name(), bits(v));
                auto r = cl.methods[0]->invoke(*w.env, w.self.get());
                MC_CHECK(same(JT<R>::in(r), v), "result", "%s result %llx of invoke on an object", JT<R>::name(), bits(v));
                r = cl.methods[1]->invoke(*w.env, w.cls.get());
                MC_CHECK(same(JT<R>::in(r), v), "result", "%s result %llx of invoke on a class", JT<R>::name(), bits(v));
                mc::transition();
            }
        }
    };
    template<class R> R Ret<R>::v;
    void results() {
        Raw w;
        switch(choose(8)) {
        case 0: Ret<jboolean>::run(w); break;
        case 1: Ret<jbyte>::run(w); break;
        case 2: Ret<jchar>::run(w); break;
        case 3: Ret<jshort>::run(w); break;
        case 4: Ret<jint>::run(w); break;
        case 5: Ret<jlong>::run(w); break;
        case 6: Ret<jfloat>::run(w); break;
        case 7: Ret<jdouble>::run(w); break;
        }
    }
}

static int init = [] {
    mc::scenario("signatures", [] { signatures(mc::bound(5, 4, 6, 5)); }, 3);
    mc::scenario("rawlists", [] { lists(mc::bound(513, 65, 513, 257)); }, 3);
    mc::scenario("values", values, 2);
    mc::scenario("results", results, 1);
    return 0;
}();
