// P36: a hooked function is declared as its C++ type says and gets the forms of objects it asks for
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct Rec {
        int calls = 0;
        ENV* e = nullptr;
        JNIEnv* j = nullptr;
        // What each parameter denotes: the object, or the bits of a number
        std::vector<uint64_t> got;
        std::vector<int> copies;
        // Runs while the function has its parameters
        std::function<void()> inside;
        void clear() { *this = Rec(); }
    };
    Rec rec;
    struct Tr;
    std::shared_ptr<Tr> retObject();
    template<class T> T result() { return value<T>(1); }
    template<> void result<void>() {}
    template<> std::shared_ptr<Tr> result<std::shared_ptr<Tr>>() { return retObject(); }
    template<> bool result<bool>() { return true; }

    struct Tr : Tracked<Extends<>> {
        int number = 0;
        template<class R, class...P> R member(P...p);
    };
    struct Der : Tracked<Extends<Tr>> {};
    struct Oth : Tracked<Extends<>> { int x = 5; };
    struct Unknown : Extends<> {};
    std::shared_ptr<Tr> theResult;
    std::shared_ptr<Tr> retObject() { return theResult; }

    // Kinds of things passed for an object parameter of type T
    enum What { Right, Derived, Wrong, Nothing, Cleared, WHATS };
    enum Of { Number, OfTr, OfObject, OfClass, OfString, OfThrowable, OfInts };
    template<class P> struct Form;
    // Every parameter form: its type in the signature, whether null is given to it, what it denotes
#define FORM(P, of_, nullable_, ...) template<> struct Form<P> { \
        static constexpr Of of = of_; static constexpr bool nullable = nullable_, copy = false; \
        static const char* name() { return #P; } \
        static uint64_t denotes(P const& p) { __VA_ARGS__ } };
    uint64_t addr(const Object* o) { return (uint64_t)(uintptr_t)o; }
    FORM(jint, Number, true, return (uint32_t)p;)
    FORM(std::shared_ptr<Tr>, OfTr, true, return addr(p.get());)
    FORM(Tr*, OfTr, true, return addr(p);)
    FORM(std::shared_ptr<Object>, OfObject, true, return addr(p.get());)
    FORM(Object*, OfObject, true, return addr(p);)
    FORM(Class*, OfClass, true, return addr(p);)
    FORM(std::shared_ptr<Class>, OfClass, true, return addr(p.get());)
    FORM(std::shared_ptr<String>, OfString, true, return addr(p.get());)
    FORM(std::shared_ptr<Throwable>, OfThrowable, true, return addr(p.get());)
    FORM(std::shared_ptr<jnivm::Array<jint>>, OfInts, true, return addr(p.get());)
    JNIEnv* current;
    FORM(jobject, OfObject, true, auto o = unwrap<Object>(current, p); return addr(o.get());)
    FORM(jclass, OfClass, true, auto o = unwrap<Object>(current, (jobject)p); return addr(o.get());)
    FORM(jthrowable, OfThrowable, true, auto o = unwrap<Object>(current, (jobject)p); return addr(o.get());)
#undef FORM
#define FORM(P, of_, copy_, ...) template<> struct Form<P> { \
        static constexpr Of of = of_; static constexpr bool nullable = false, copy = copy_; \
        static const char* name() { return #P; } \
        static uint64_t denotes(const std::remove_reference_t<P>& p) { __VA_ARGS__ } };
    FORM(Tr&, OfTr, false, return addr(&p);)
    FORM(const Tr&, OfTr, false, return addr(&p);)
    FORM(Tr, OfTr, true, return addr(&p);)
    FORM(String&, OfString, false, return addr(&p);)
    FORM(const String&, OfString, false, return addr(&p);)
#undef FORM
    const char* typeOf(Of o) {
        switch(o) {
        case Number: return "I";
        case OfTr: return "Lp/Tr;";
        case OfObject: return "Ljava/lang/Object;";
        case OfClass: return "Ljava/lang/Class;";
        case OfString: return "Ljava/lang/String;";
        case OfThrowable: return "Ljava/lang/Throwable;";
        default: return "[I";
        }
    }
    template<class R> struct Res;
    template<> struct Res<void> { static constexpr char c = 'V'; static const char* sig() { return "V"; } using T = void; };
    template<> struct Res<jint> { static constexpr char c = 'I'; static const char* sig() { return "I"; } using T = jint; };
    template<> struct Res<bool> { static constexpr char c = 'Z'; static const char* sig() { return "Z"; } using T = jboolean; };
    template<> struct Res<jdouble> { static constexpr char c = 'D'; static const char* sig() { return "D"; } using T = jdouble; };
    template<> struct Res<std::shared_ptr<Tr>> { static constexpr char c = 'L'; static const char* sig() { return "Lp/Tr;"; } using T = jobject; };

    struct NoEnv {};
    template<class P> void note(P& p) {
        rec.got.push_back(Form<P>::denotes(p));
    }
    template<> void note<Tr>(Tr& p) { rec.got.push_back((uint64_t)p.number); }
    void enter(NoEnv) {}
    template<class R, class...P> struct Run {
        static R go(P...p) {
            rec.calls++;
            if(rec.inside) rec.inside();
            (void)std::initializer_list<int>{ (note<P>(p), 0)... };
            return result<R>();
        }
    };
    template<class E, class R, class...P> struct Fn;
    template<class R, class...P> struct Fn<NoEnv, R, P...> {
        static R call(P...p) { return Run<R, P...>::go(std::forward<P>(p)...); }
        static auto member() { return &Tr::template member<R, P...>; }
    };
    template<class R, class...P> struct Fn<ENV*, R, P...> {
        static R call(ENV* e, P...p) { rec.e = e; return Run<R, P...>::go(std::forward<P>(p)...); }
        static auto member() { return &Tr::template member<R, ENV*, P...>; }
    };
    template<class R, class...P> struct Fn<JNIEnv*, R, P...> {
        static R call(JNIEnv* e, P...p) { rec.j = e; return Run<R, P...>::go(std::forward<P>(p)...); }
        static auto member() { return &Tr::template member<R, JNIEnv*, P...>; }
    };
    Tr* memberThis;
    template<class R, class...P> struct MemberRun {
        static R go(P...p) { return Run<R, P...>::go(std::forward<P>(p)...); }
    };
    template<class R, class...P> struct MemberRun<R, ENV*, P...> {
        static R go(ENV* e, P...p) { rec.e = e; return Run<R, P...>::go(std::forward<P>(p)...); }
    };
    template<class R, class...P> struct MemberRun<R, JNIEnv*, P...> {
        static R go(JNIEnv* e, P...p) { rec.j = e; return Run<R, P...>::go(std::forward<P>(p)...); }
    };
    template<class R, class...P> R Tr::member(P...p) {
        memberThis = this;
        return MemberRun<R, P...>::go(std::forward<P>(p)...);
    }

    enum Kind { Static, Instance, Member };
    // The first parameter may be the receiver
    struct Param { Of of; bool nullable, copy; const char* name; bool asClass, asObject, asAny; };
    template<class P> Param param() {
        return { Form<P>::of, Form<P>::nullable, Form<P>::copy, Form<P>::name(),
            std::is_same<P, Class*>::value || std::is_same<P, jclass>::value,
            std::is_same<P, Object*>::value || std::is_same<P, jobject>::value || std::is_same<P, Tr*>::value,
            std::is_same<P, Object*>::value || std::is_same<P, jobject>::value };
    }
    struct Case {
        Kind kind;
        int env;
        std::vector<Param> params;
        const char* res;
        char resc;
        void (*install)(Class*, ENV*, const char*);
    };
    std::vector<Case>& cases() { static std::vector<Case> c; return c; }
    template<class E> constexpr int envNo() { return std::is_same<E, NoEnv>::value ? 0 : std::is_same<E, ENV*>::value ? 1 : 2; }
    template<class P, class...Q> constexpr bool classFirst() { return std::is_same<P, Class*>::value || std::is_same<P, jclass>::value; }
    template<bool> struct AddInstance {
        template<class E, class R, class...P> static void add() {
            using F = Fn<E, R, P...>;
            cases().push_back({ Instance, envNo<E>(), { param<P>()... }, Res<R>::sig(), Res<R>::c, [](Class* c, ENV* e, const char* n) { c->HookInstanceFunction(e, n, &F::call); } });
        }
    };
    // No object is a receiver of this type, this does not compile
    template<> struct AddInstance<false> { template<class E, class R, class...P> static void add() {} };
    template<class E, class R, class...P> void add() {
        using F = Fn<E, R, P...>;
        cases().push_back({ Static, envNo<E>(), { param<P>()... }, Res<R>::sig(), Res<R>::c, [](Class* c, ENV* e, const char* n) { c->Hook(e, n, &F::call); } });
        AddInstance<!classFirst<P..., void>()>::template add<E, R, P...>();
    }
    template<class E, class R, class...P> void addMember() {
        using F = Fn<E, R, P...>;
        cases().push_back({ Member, envNo<E>(), { param<P>()... }, Res<R>::sig(), Res<R>::c, [](Class* c, ENV* e, const char* n) { c->Hook(e, n, F::member()); } });
    }
    template<class R, class P> void one() {
        add<NoEnv, R, P>();
        add<ENV*, jint, P>();
        add<JNIEnv*, R, P>();
        addMember<NoEnv, R, P>();
        addMember<ENV*, void, P>();
    }
    template<class E, class P, class...Q> void pairs() {
        (void)std::initializer_list<int>{ (add<E, jint, P, Q>(), 0)... };
    }
    template<class P> void first() {
        pairs<NoEnv, P, jint, Tr&, jclass>();
        pairs<JNIEnv*, P, Tr*, jobject, String&>();
        pairs<ENV*, P, std::shared_ptr<Tr>, Class*, Tr>();
    }
    template<class P> void byValue() {
        // Not as the first parameter of instance functions
        cases().push_back({ Static, 0, { param<P>() }, "I", 'I', [](Class* c, ENV* e, const char* n) { c->Hook(e, n, &Fn<NoEnv, jint, P>::call); } });
    }
    int build = [] {
        add<NoEnv, void>(); add<ENV*, jint>(); add<JNIEnv*, jdouble>(); add<NoEnv, bool>(); add<ENV*, std::shared_ptr<Tr>>();
        addMember<NoEnv, void>(); addMember<ENV*, jint>(); addMember<JNIEnv*, jdouble>(); addMember<JNIEnv*, bool>(); addMember<NoEnv, std::shared_ptr<Tr>>();
        one<jint, jint>();
        one<void, std::shared_ptr<Tr>>();
        one<std::shared_ptr<Tr>, Tr*>();
        one<jint, Tr&>();
        one<bool, const Tr&>();
        byValue<Tr>();
        one<jint, std::shared_ptr<Object>>();
        one<jdouble, Object*>();
        one<jint, Class*>();
        one<void, std::shared_ptr<Class>>();
        one<jint, std::shared_ptr<String>>();
        one<jint, std::shared_ptr<Throwable>>();
        one<jint, std::shared_ptr<jnivm::Array<jint>>>();
        one<jint, jobject>();
        one<jint, jclass>();
        one<jint, jthrowable>();
        one<jint, String&>();
        one<jint, const String&>();
        first<jint>(); first<std::shared_ptr<Tr>>(); first<Tr*>(); first<Object*>(); first<jobject>(); first<Class*>(); first<jclass>(); first<Tr&>();
        return 0;
    }();

    struct Decl { bool isStatic; std::string sig; bool receiver; };
    std::vector<Decl> declared(const Case& c, bool own = true) {
        std::string all, rest;
        for(size_t i = 0; i < c.params.size(); ++i) {
            all += typeOf(c.params[i].of);
            if(i) rest += typeOf(c.params[i].of);
        }
        std::vector<Decl> r{ { c.kind == Static, "(" + all + ")" + c.res, false } };
        if(!c.params.empty() && (c.kind == Static ? c.params[0].asClass : c.kind == Instance && (own ? c.params[0].asObject : c.params[0].asAny))) r.push_back({ c.kind == Static, "(" + rest + ")" + c.res, true });
        return r;
    }
    std::string describe(const Case& c) {
        std::string s = c.kind == Static ? "static (" : c.kind == Instance ? "instance (" : "member (";
        s += c.env == 1 ? "ENV*," : c.env == 2 ? "JNIEnv*," : "";
        for(auto& p : c.params) s += std::string(p.name) + ",";
        return s + ")" + c.res;
    }
    struct World {
        std::shared_ptr<VM> vm;
        JNIEnv* env;
        ENV* e;
        std::shared_ptr<Class> cls, der, oth;
        std::vector<jobject> globals, weaks;
        World(int kind) {
            if(kind == 0) vm = std::make_shared<VM>(false, true);
            else if(kind == 1) vm = std::make_shared<VM>();
            else { auto f = std::make_shared<FakeJni::Jvm>(); vm = std::shared_ptr<VM>(f, (VM*)f.get()); }
            vm->GetJavaVM()->GetEnv((void**)&env, JNI_VERSION_1_6);
            current = env;
            e = E(env);
            cls = e->GetClass<Tr>("p/Tr");
            der = e->GetClass<Der>("p/Der");
            oth = e->GetClass<Oth>("p/Oth");
            rec.clear();
            memberThis = nullptr;
        }
        ~World() {
            theResult = nullptr;
            rec.clear();
            for(auto g : globals) env->DeleteGlobalRef(g);
            for(auto g : weaks) env->DeleteWeakGlobalRef((jweak)g);
            vm->GetJavaVM()->DetachCurrentThread();
        }
        // An argument of this kind through this kind of reference
        struct Arg { jvalue v; What what; uint64_t object; int number; std::weak_ptr<Object> alive; };
        Arg make(Of of, int what, int ref, int salt) {
            Arg a{};
            a.what = (What)what;
            if(of == Number) { a.v.j = -1; a.v.i = value<jint>(salt); a.object = (uint32_t)a.v.i; return a; }
            if(what == Nothing) return a;
            if(what == Cleared) {
                env->PushLocalFrame(0);
                a.v.l = env->NewWeakGlobalRef(local(env, std::make_shared<Tr>()));
                env->PopLocalFrame(nullptr);
                weaks.push_back(a.v.l);
                return a;
            }
            env->PushLocalFrame(0);
            std::shared_ptr<Object> o;
            if(what == Wrong) {
                // Everything is a java/lang/Object
                if(of == OfString || of == OfObject) o = std::make_shared<Oth>();
                else if(of == OfInts) o = unwrap<Object>(env, env->NewLongArray(3));
                else o = unwrap<Object>(env, env->NewStringUTF("wrong"));
            } else switch(of) {
            case OfTr: {
                auto t = what == Derived ? std::static_pointer_cast<Tr>(std::make_shared<Der>()) : std::make_shared<Tr>();
                t->number = a.number = salt + 1000;
                o = t;
                break;
            }
            case OfObject: if(what == Derived) o = std::make_shared<Tr>(); else o = std::make_shared<Object>(); break;
            case OfClass: o = what == Derived ? cls : oth; break;
            case OfString: o = std::make_shared<String>("text"); break;
            case OfThrowable: o = std::make_shared<Throwable>(); break;
            default: o = std::make_shared<jnivm::Array<jint>>(salt % 3);
            }
            auto tr = std::dynamic_pointer_cast<Tr>(o);
            auto d = std::dynamic_pointer_cast<Der>(o);
            jobject l = d ? local(env, d) : tr ? local(env, tr) : local(env, o);
            a.object = addr(o.get());
            a.alive = o;
            o = nullptr; tr = nullptr; d = nullptr;
            if(ref == 1) { l = env->NewGlobalRef(l); globals.push_back(l); }
            if(ref == 2) { globals.push_back(env->NewGlobalRef(l)); l = env->NewWeakGlobalRef(l); weaks.push_back(l); }
            a.v.l = ref ? (env->PopLocalFrame(nullptr), l) : env->PopLocalFrame(l);
            return a;
        }
    };
    bool fits(const Param& p, What w) {
        if(p.of == Number) return true;
        switch(w) {
        case Right: case Derived: return true;
        case Wrong: return p.of == OfObject || false;
        default: return p.nullable;
        }
    }
    // jobject parameters are given the reference itself, whatever it is
    template<class T> uint64_t bitsOf(T v) { return bits(v); }
    struct Outcome { bool ran; uint64_t bits; jobject obj; };
    template<class T> uint64_t callBits(World& w, int how, jobject o, jclass c, jmethodID m, jvalue* a) {
        T r = how == 0 ? JT<T>::stA(w.env, c, m, a) : how == 1 ? JT<T>::callA(w.env, o, m, a) : JT<T>::nvA(w.env, o, c, m, a);
        return bits(r);
    }
    template<> uint64_t callBits<void>(World& w, int how, jobject o, jclass c, jmethodID m, jvalue* a) {
        how == 0 ? JT<void>::stA(w.env, c, m, a) : how == 1 ? JT<void>::callA(w.env, o, m, a) : JT<void>::nvA(w.env, o, c, m, a);
        return 0;
    }
    jobject lastObject;
    template<> uint64_t callBits<jobject>(World& w, int how, jobject o, jclass c, jmethodID m, jvalue* a) {
        lastObject = how == 0 ? JT<jobject>::stA(w.env, c, m, a) : how == 1 ? JT<jobject>::callA(w.env, o, m, a) : JT<jobject>::nvA(w.env, o, c, m, a);
        return 0;
    }
    const char types[] = "VILZDBCSJF";
    uint64_t callAs(World& w, char t, int how, jobject o, jclass c, jmethodID m, jvalue* a) {
        switch(t) {
        case 'V': return callBits<void>(w, how, o, c, m, a);
        case 'I': return callBits<jint>(w, how, o, c, m, a);
        case 'Z': return callBits<jboolean>(w, how, o, c, m, a);
        case 'D': return callBits<jdouble>(w, how, o, c, m, a);
        case 'B': return callBits<jbyte>(w, how, o, c, m, a);
        case 'C': return callBits<jchar>(w, how, o, c, m, a);
        case 'S': return callBits<jshort>(w, how, o, c, m, a);
        case 'J': return callBits<jlong>(w, how, o, c, m, a);
        case 'F': return callBits<jfloat>(w, how, o, c, m, a);
        default: return callBits<jobject>(w, how, o, c, m, a);
        }
    }
    uint64_t resultBits(char t) {
        switch(t) {
        case 'I': return bits(result<jint>());
        case 'Z': return bits((jboolean)1);
        case 'D': return bits(result<jdouble>());
        default: return 0;
        }
    }
    jmethodID lookup(World& w, jclass c, bool isStatic, const std::string& sig) {
        auto id = isStatic ? w.env->GetStaticMethodID(c, "m", sig.data()) : w.env->GetMethodID(c, "m", sig.data());
        w.env->ExceptionClear();
        return id;
    }
    jclass handle(const std::shared_ptr<Class>& c) { return (jclass)(Object*)c.get(); }

    // The function is found under its signatures and under no similar one
    void signatures() {
        int n = choose((int)cases().size());
        auto& c = cases()[n];
        bool twice = choose(2);
        // The function's own object type is the receiver in its own class only
        int where = choose(3);
        World w(0);
        log("%s%s", describe(c).data(), twice ? " twice" : "");
        auto want = declared(c, where == 0);
        auto on = where == 0 ? w.cls : where == 1 ? w.oth : w.der;
        c.install(on.get(), w.e, "m");
        if(twice) c.install(on.get(), w.e, "m");
        std::set<std::string> wanted;
        for(auto& d : want) wanted.insert((d.isStatic ? "s" : "i") + d.sig);
        // All lists of parameters that begin with any, leave out any or add any parameter
        std::set<std::string> lists;
        std::vector<std::string> t;
        for(auto& p : c.params) t.push_back(typeOf(p.of));
        static const char* const all[] = { "", "I", "J", "Lp/Tr;", "Lp/Der;", "Lp/Oth;", "Ljava/lang/Object;", "Ljava/lang/Class;", "Ljava/lang/String;", "Ljava/lang/Throwable;", "[I", "[Lp/Tr;" };
        for(auto a : all) for(auto b : all) {
            lists.insert(std::string(a) + b);
            for(size_t i = 0; i < t.size(); ++i) { lists.insert(a + t[i] + b); lists.insert(a + std::string(b) + t[i]); lists.insert(t[i] + a + b); }
            if(t.size() == 2) { lists.insert(a + t[0] + b + t[1]); lists.insert(t[0] + a + t[1] + b); lists.insert(t[1] + a + t[0] + b); }
        }
        for(auto& l : lists) for(auto r : { "V", "I", "Z", "D", "J", "Lp/Tr;", "Ljava/lang/Object;" }) for(int s = 0; s < 2; ++s) {
            auto sig = "(" + l + ")" + r;
            bool should = wanted.count((s ? "s" : "i") + sig);
            auto id = lookup(w, handle(on), s, sig);
            MC_CHECK((bool)id == should, should ? "missing" : "extra", "%s: %s m%s is %s", describe(c).data(), s ? "static" : "instance", sig.data(), id ? "declared" : "not declared");
            if(id && where == 0) MC_CHECK(lookup(w, handle(w.der), s, sig) == id, "derived", "%s: m%s is another one in a derived class", describe(c).data(), sig.data());
        }
        MC_CHECK(!lookup(w, handle(where == 1 ? w.cls : w.oth), want[0].isStatic, want[0].sig), "extra", "another class has the member");
        mc::transition();
        mc::state(describe(c));
    }

    // Calls fitting the function: every parameter, the receiver and the result
    void check(World& w, const Case& c, const Decl& d, int how, World::Arg& recv, bool derivedClass, std::vector<World::Arg>& args, bool free, char as) {
        auto id = lookup(w, handle(w.cls), d.isStatic, d.sig);
        MC_CHECK(id, "missing", "%s: m%s is not declared", describe(c).data(), d.sig.data());
        std::vector<jvalue> v(args.size() + 1);
        for(size_t i = 0; i < args.size(); ++i) v[i] = args[i].v;
        auto cl = derivedClass ? w.der : w.cls;
        bool kindFits = (how == 0) == d.isStatic && as == c.resc;
        bool run = kindFits;
        // How the parameters of the function get their values
        size_t skip = d.receiver ? 1 : 0;
        if(run && c.kind == Member && (how == 2 || recv.what == Wrong)) run = false;
        if(run && skip && !d.isStatic) run = fits(c.params[0], recv.what) ;
        for(size_t i = 0; run && i < args.size(); ++i) if(!fits(c.params[i + skip], args[i].what)) run = false;
        rec.clear();
        memberThis = nullptr;
        theResult = std::make_shared<Tr>();
        auto alive = Tr::alive();
        auto copies = Tracked<Extends<>>::alive();
        if(free) rec.inside = [&] {
            // The references are deleted while the function has its pointers
            for(auto g : w.globals) w.env->DeleteGlobalRef(g);
            w.globals.clear();
        };
        w.env->PushLocalFrame(0);
        lastObject = nullptr;
        auto r = callAs(w, as, how, recv.v.l, handle(cl), id, v.data());
        mc::transition();
        auto ex = w.env->ExceptionOccurred();
        auto what = describe(c);
        log("%s -> %s", what.data(), rec.calls ? "ran" : "not run");
        MC_CHECK(rec.calls == (int)run, run ? "not-run" : "run", "%s as m%s with %c call %d ran %d times", what.data(), d.sig.data(), as, how, rec.calls);
        if(!run) {
            MC_CHECK(ex, "no-exception", "%s as m%s with %c call %d did not run without an exception", what.data(), d.sig.data(), as, how);
            if(as != 'L') MC_CHECK(r == 0, "result", "%s did not run but gave %llx", what.data(), (unsigned long long)r);
            MC_CHECK(!memberThis, "run", "%s ran", what.data());
        } else {
            MC_CHECK(!ex, "exception", "%s as m%s raised", what.data(), d.sig.data());
            MC_CHECK(rec.e == (c.env == 1 ? w.e : nullptr) && rec.j == (c.env == 2 ? w.env : nullptr), "env", "%s got another environment", what.data());
            MC_CHECK(rec.got.size() == args.size() + skip, "harness", "%zu parameters", rec.got.size());
            if(skip) {
                auto want = d.isStatic ? addr(cl.get()) : recv.object;
                MC_CHECK(rec.got[0] == want, "receiver", "%s got another receiver", what.data());
            }
            for(size_t i = 0; i < args.size(); ++i) {
                auto& p = c.params[i + skip];
                if(p.copy) MC_CHECK(rec.got[i + skip] == (uint64_t)args[i].number, "copy", "%s: parameter %zu is another object's copy", what.data(), i);
                else MC_CHECK(rec.got[i + skip] == args[i].object, "argument", "%s: parameter %zu denotes another object", what.data(), i);
            }
            if(c.kind == Member) MC_CHECK(addr(memberThis) == recv.object, "receiver", "%s ran on another object", what.data());
            if(as == 'L') MC_CHECK(unwrap<Object>(w.env, lastObject).get() == theResult.get(), "result", "%s gave another object", what.data());
            else MC_CHECK(r == resultBits(c.resc), "result", "%s gave %llx", what.data(), (unsigned long long)r);
        }
        w.env->ExceptionClear();
        rec.inside = nullptr;
        w.env->PopLocalFrame(nullptr);
        // Nothing but the references keeps what was passed
        if(!free) MC_CHECK(Tr::alive() == alive && Tracked<Extends<>>::alive() == copies, "leak", "%s: %d objects more", what.data(), Tr::alive() - alive);
        theResult = nullptr;
    }
    int receiverKind(const Case& c, const Decl& d) {
        // Null receivers are outside of the contract
        return d.isStatic ? 0 : choose(3);
    }
    void calls() {
        int n = choose((int)cases().size());
        auto& c = cases()[n];
        auto ds = declared(c);
        auto d = ds[choose((int)ds.size())];
        int how = d.isStatic ? 0 : 1 + choose(2);
        World w(choose(mc::bound(3, 1, 3, 2)));
        c.install(w.cls.get(), w.e, "m");
        bool derived = choose(2);
        auto recv = w.make(OfTr, receiverKind(c, d), choose(3), 7);
        std::vector<World::Arg> args;
        size_t skip = d.receiver ? 1 : 0;
        for(size_t i = skip; i < c.params.size(); ++i) {
            if(c.params[i].of == Number) { args.push_back(w.make(Number, 0, 0, choose(3))); continue; }
            int what = choose(WHATS);
            int ref = what < Nothing ? choose(3) : 0;
            args.push_back(w.make(c.params[i].of, what, ref, (int)i));
        }
        check(w, c, d, how, recv, derived, args, false, c.resc);
        mc::state(describe(c) + d.sig);
    }
    // Pointers stay valid until the call has returned, even if the references passed are deleted
    void pinned() {
        int n = choose((int)cases().size());
        auto& c = cases()[n];
        auto ds = declared(c);
        auto d = ds[choose((int)ds.size())];
        size_t skip = d.receiver ? 1 : 0;
        World w(choose(2));
        // References of C++ and handles promise nothing of the kind
        for(auto& p : c.params) {
            if(p.of != Number && (!p.nullable || !strcmp(p.name, "jobject"))) return;
        }
        c.install(w.cls.get(), w.e, "m");
        auto recv = w.make(OfTr, 0, 0, 7);
        std::vector<World::Arg> args;
        for(size_t i = skip; i < c.params.size(); ++i) args.push_back(w.make(c.params[i].of, 0, 1 + choose(2), (int)i));
        rec.clear();
        std::vector<std::weak_ptr<Object>> alive;
        for(auto& a : args) alive.push_back(a.alive);
        check(w, c, d, d.isStatic ? 0 : 1, recv, false, args, true, c.resc);
        for(size_t i = 0; i < args.size(); ++i) {
            auto& p = c.params[i + skip];
            if(p.of != Number && p.of != OfClass) MC_CHECK(alive[i].expired(), "leak", "%s: parameter %zu exists after the call without references", describe(c).data(), i);
        }
    }
    // Calls of another type or kind are refused, those that fit work before and after
    void mismatch() {
        int n = choose((int)cases().size());
        auto& c = cases()[n];
        auto ds = declared(c);
        auto d = ds[choose((int)ds.size())];
        World w(choose(3));
        c.install(w.cls.get(), w.e, "m");
        auto recv = w.make(OfTr, Right, 0, 7);
        std::vector<World::Arg> args;
        size_t skip = d.receiver ? 1 : 0;
        for(size_t i = skip; i < c.params.size(); ++i) args.push_back(w.make(c.params[i].of, 0, 0, (int)i));
        int steps = mc::bound(2, 1, 3, 2);
        for(int i = 0; i < steps; ++i) {
            int how = choose(3);
            char as = types[choose(10)];
            check(w, c, d, how, recv, false, args, false, as);
        }
        check(w, c, d, d.isStatic ? 0 : 1, recv, false, args, false, c.resc);
    }

    // A function mentioning a type without a name is not declared at all
    void unknownFn(Unknown*) {}
    jint unknownFn2(ENV*, jint, std::shared_ptr<Unknown>) { return 0; }
    std::shared_ptr<Unknown> unknownFn3() { return nullptr; }
    jint unknownGet() { return 4; }
    void unknown() {
        int which = choose(3), kind = choose(2), later = choose(2);
        World w(choose(2) ? 0 : 2);
        bool threw = false;
        auto install = [&] {
            if(which == 0) kind ? w.cls->HookInstanceFunction(w.e, "m", &unknownFn) : w.cls->Hook(w.e, "m", &unknownFn);
            else if(which == 1) kind ? w.cls->HookInstanceFunction(w.e, "m", &unknownFn2) : w.cls->Hook(w.e, "m", &unknownFn2);
            else kind ? w.cls->HookInstanceFunction(w.e, "m", &unknownFn3) : w.cls->Hook(w.e, "m", &unknownFn3);
        };
        try { install(); } catch(const std::runtime_error&) { threw = true; }
        MC_CHECK(threw, "unknown", "a function of an unknown type is hooked");
        MC_CHECK(w.cls->methods.empty(), "unknown", "a function of an unknown type is declared");
        // The VM still works
        w.cls->Hook(w.e, "k", &unknownGet);
        auto id = w.env->GetStaticMethodID(handle(w.cls), "k", "()I");
        MC_CHECK(id && w.env->CallStaticIntMethod(handle(w.cls), id) == 4, "usable", "the class is unusable");
        if(later) {
            w.e->GetClass<Unknown>("p/Unknown");
            install();
            auto s = which == 0 ? "(Lp/Unknown;)V" : which == 1 ? "(ILp/Unknown;)I" : "()Lp/Unknown;";
            MC_CHECK(lookup(w, handle(w.cls), !kind, s), "missing", "m%s is not declared", s);
        }
        mc::transition();
    }
    int init = [] {
        mc::scenario("signatures", signatures, 1);
        mc::scenario("calls", calls, 2);
        mc::scenario("pinned", pinned, 2);
        mc::scenario("mismatch", mismatch, 2);
        mc::scenario("unknown", unknown, 1);
        return 0;
    }();
}
