// P32: classes described with BEGIN_NATIVE_DESCRIPTOR
#include "../mc/jtypes.hpp"
using namespace jh;
using namespace FakeJni;

namespace zoo {
    struct K : JObject {
        DEFINE_CLASS_NAME("zoo/K")
        static int& alive() { static int n; return n; }
        K() { alive()++; }
        K(JInt n) : i(n), made(1) { alive()++; }
        K(std::shared_ptr<JString> n, JLong l) : j(l), text(n), made(2) { alive()++; }
        K(JDouble a, JFloat b, JBoolean c, JByte e, JChar g, JShort h, std::shared_ptr<K> o) : z(c), b(e), c(g), s(h), f(b), d(a), self(o), made(3) { alive()++; }
        ~K() { alive()--; }
        JBoolean z = 0; JByte b = 0; JChar c = 0; JShort s = 0; JInt i = 0; JLong j = 0; JFloat f = 0; JDouble d = 0;
        std::shared_ptr<JString> text;
        std::shared_ptr<JArray<JInt>> ints;
        std::shared_ptr<JArray<JString>> strings;
        std::shared_ptr<K> self;
        int made = 0;
        static JBoolean sz; static JByte sb; static JChar sc; static JShort ss; static JInt si; static JLong sj; static JFloat sf; static JDouble sd;
        static std::shared_ptr<JString> stext;
        static JInt promotedField;
        JInt add(JInt x) { return i * 10 + x; }
        JLong addc(JLong x) const { return j + x; }
        std::shared_ptr<K> me(std::shared_ptr<K> o) { self = o; return o; }
        void over() { i = 1; }
        void over1(JInt x) { i = x; }
        JInt over2(JInt a, JInt b) { return a - b; }
        static JInt twice(JInt x) { return 2 * x; }
        static JDouble half(JDouble x) { return x / 2; }
        static JInt promoted(JInt x) { return 3 * x; }
        static JInt promotedSelf(K* k, JInt x) { return k ? k->i * 100 + x : -1; }
        static JInt withEnv(jnivm::ENV* e, JInt x) { return e == jnivm::ENV::FromJNIEnv(JniEnv::getCurrentEnv()) ? x + 5 : -1; }
        static JInt withJniEnv(JNIEnv* e, JInt x) { return e && e->GetVersion() ? x + 7 : -1; }
        virtual JInt virt(JInt x) { return x + 1000; }
    };
    JBoolean K::sz; JByte K::sb; JChar K::sc; JShort K::ss; JInt K::si; JLong K::sj; JFloat K::sf; JDouble K::sd;
    std::shared_ptr<JString> K::stext;
    JInt K::promotedField;
    JInt freeFunction(JInt x) { return x + 9; }
    struct Kid : K {
        DEFINE_CLASS_NAME("zoo/Kid", K)
        Kid() {}
        Kid(JInt n) : K(n) { i += 1; }
        JLong own = 0;
        JInt add2(JInt x) { return -(i * 10 + x); }
        virtual JInt virt(JInt x) override { return x + 2000; }
        JInt extra() { return 77; }
    };
    struct OnlyField : JObject { DEFINE_CLASS_NAME("zoo/OnlyField") JInt x = 3; };
    struct OnlyFunction : JObject { DEFINE_CLASS_NAME("zoo/OnlyFunction") static JInt f() { return 4; } OnlyFunction(int) {} };
    struct OnlyCtor : JObject { DEFINE_CLASS_NAME("zoo/OnlyCtor") JInt v; OnlyCtor(JInt x) : v(x) {} };
    struct Empty : JObject { DEFINE_CLASS_NAME("zoo/Empty") };
    struct Bad : JObject { DEFINE_CLASS_NAME("zoo/Bad") JInt m() { return 1; } };
    struct BadField : JObject { DEFINE_CLASS_NAME("zoo/BadField") JInt m; };
    // Many members of each kind
    struct Big : JObject {
        DEFINE_CLASS_NAME("zoo/Big")
        JInt v = 0;
        template<int N> struct Slot { static JLong value; };
        template<int N> static JInt sf(JInt x) { return N * 1000 + x; }
        template<int N> JInt mf(JInt x) { return -(N * 1000 + x) - v; }
    };
    template<int N> JLong Big::Slot<N>::value;
}
using namespace zoo;
#define REP8(X, n) X(n) X(n + 1) X(n + 2) X(n + 3) X(n + 4) X(n + 5) X(n + 6) X(n + 7)
#define REP80(X) REP8(X, 0) REP8(X, 8) REP8(X, 16) REP8(X, 24) REP8(X, 32) REP8(X, 40) REP8(X, 48) REP8(X, 56) REP8(X, 64) REP8(X, 72)
#define BIG(n) {FakeJni::Function<&Big::sf<n>>{}, bigName("sf", n), JMethodID::STATIC}, {FakeJni::Function<&Big::mf<n>>{}, bigName("mf", n)}, {FakeJni::Field<&Big::Slot<n>::value>{}, bigName("v", n), JFieldID::STATIC},
static const char* bigName(const char* p, int n) {
    static std::map<std::string, std::string> names;
    auto k = p + std::to_string(n);
    return (names[k] = k).data();
}
BEGIN_NATIVE_DESCRIPTOR(Big)
    {Constructor<Big>{}},
    REP80(BIG)
END_NATIVE_DESCRIPTOR
#define STAT(n) {FakeJni::Field<&K::n>{}, #n, JFieldID::STATIC}
#define INST(n) {FakeJni::Field<&K::n>{}, #n}
BEGIN_NATIVE_DESCRIPTOR(K)
    {Constructor<K>{}},
    {Constructor<K, JInt>{}},
    {Constructor<K, std::shared_ptr<JString>, JLong>{}},
    {Constructor<K, JDouble, JFloat, JBoolean, JByte, JChar, JShort, std::shared_ptr<K>>{}},
    INST(z), INST(b), INST(c), INST(s), INST(i), INST(j), INST(f), INST(d), INST(text), INST(ints), INST(strings), INST(self),
    STAT(sz), STAT(sb), STAT(sc), STAT(ss), STAT(si), STAT(sj), STAT(sf), STAT(sd), STAT(stext),
    {FakeJni::Field<&K::promotedField>{}, "promotedField"},
    {FakeJni::Field<&K::i>{}, "alias", JFieldID::PUBLIC},
    {FakeJni::Field<&K::j>{}, "hidden", JFieldID::PRIVATE},
    {&K::d, "raw"},
    {&K::si, "sraw", JFieldID::STATIC | JFieldID::PROTECTED},
    {FakeJni::Function<&K::add>{}, "add"},
    {FakeJni::Function<&K::addc>{}, "addc"},
    {FakeJni::Function<&K::me>{}, "me"},
    {FakeJni::Function<&K::over>{}, "over"},
    {FakeJni::Function<&K::over1>{}, "over"},
    {FakeJni::Function<&K::over2>{}, "over"},
    {FakeJni::Function<&K::add>{}, "addAlias", JMethodID::PRIVATE},
    {FakeJni::Function<&K::virt>{}, "virt"},
    {FakeJni::Function<&K::twice>{}, "twice", JMethodID::STATIC},
    {FakeJni::Function<&K::half>{}, "half", JMethodID::STATIC | JMethodID::PUBLIC},
    {FakeJni::Function<&K::twice>{}, "pub", JMethodID::PUBLIC},
    {FakeJni::Function<&K::promoted>{}, "promoted"},
    {FakeJni::Function<&K::promotedSelf>{}, "promotedSelf", JMethodID::PUBLIC},
    {FakeJni::Function<&K::withEnv>{}, "withEnv", JMethodID::STATIC},
    {FakeJni::Function<&K::withJniEnv>{}, "withJniEnv", JMethodID::STATIC},
    {FakeJni::Function<&freeFunction>{}, "freeFunction", JMethodID::STATIC},
    {&K::over2, "rawFunction"},
    {&K::twice, "sRawFunction", JMethodID::STATIC},
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Kid)
    {Constructor<Kid>{}},
    {Constructor<Kid, JInt>{}},
    {FakeJni::Field<&Kid::own>{}, "own"},
    {FakeJni::Function<&Kid::add2>{}, "add"},
    {FakeJni::Function<&Kid::extra>{}, "extra"},
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(OnlyField) {FakeJni::Field<&OnlyField::x>{}, "x"}, END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(OnlyFunction) {FakeJni::Function<&OnlyFunction::f>{}, "f", JMethodID::STATIC}, END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(OnlyCtor) {Constructor<OnlyCtor, JInt>{}}, END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Empty) END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Bad) {FakeJni::Function<&Bad::m>{}, "m", JMethodID::STATIC}, END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(BadField) {FakeJni::Field<&BadField::m>{}, "m", JFieldID::STATIC}, END_NATIVE_DESCRIPTOR

namespace {
#ifdef JNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT
    constexpr bool promote = false;
#else
    constexpr bool promote = true;
#endif
    struct Vm {
        std::shared_ptr<Jvm> vm;
        JNIEnv* env;
        int kind;
        Vm(int kind) : kind(kind) {
            vm = kind == 0 ? std::make_shared<Jvm>() : kind == 1 ? std::make_shared<Jvm>(false, false) : std::make_shared<Baron::Jvm>();
            static_cast<JavaVM*>(vm.get())->GetEnv((void**)&env, JNI_VERSION_1_6);
        }
    };
    using Members = std::multiset<std::string>;
    std::string entry(bool stat, const std::string& name, const std::string& sig) { return (stat ? "static " : "") + name + " " + sig; }
    Members methods(Class& c) { Members m; for(auto& x : c.methods) m.insert(entry(x->_static, x->name, x->signature)); return m; }
    Members fields(Class& c) { Members m; for(auto& x : c.fields) m.insert(entry(x->_static, x->name, x->type)); return m; }
    struct Desc {
        const char* name;
        Members m, f;
        std::shared_ptr<Class> (*descriptor)();
        std::shared_ptr<Class> (*registre)();
        std::shared_ptr<JObject> (*make)();
    };
    template<class T> std::shared_ptr<JObject> make() { return std::make_shared<T>(); }
    template<> std::shared_ptr<JObject> make<OnlyFunction>() { return std::make_shared<OnlyFunction>(1); }
    template<> std::shared_ptr<JObject> make<OnlyCtor>() { return std::make_shared<OnlyCtor>(1); }
    const std::vector<Desc>& table() {
        static const std::vector<Desc> t = [] {
            auto p = promote ? "" : "static ";
            std::vector<Desc> r;
            r.push_back({ "zoo/K", {
                "static <init> ()Lzoo/K;", "static <init> (I)Lzoo/K;", "static <init> (Ljava/lang/String;J)Lzoo/K;", "static <init> (DFZBCSLzoo/K;)Lzoo/K;",
                "add (I)I", "addc (J)J", "me (Lzoo/K;)Lzoo/K;", "over ()V", "over (I)V", "over (II)I", "addAlias (I)I", "virt (I)I",
                "static twice (I)I", "static half (D)D", "pub (I)I", std::string(p) + "promoted (I)I", "promotedSelf (I)I",
                "static withEnv (I)I", "static withJniEnv (I)I", "static freeFunction (I)I",
                "rawFunction (II)I", "static sRawFunction (I)I" },
              { "z Z", "b B", "c C", "s S", "i I", "j J", "f F", "d D", "text Ljava/lang/String;", "ints [I", "strings [Ljava/lang/String;", "self Lzoo/K;",
                "static sz Z", "static sb B", "static sc C", "static ss S", "static si I", "static sj J", "static sf F", "static sd D", "static stext Ljava/lang/String;",
                std::string(p) + "promotedField I", "alias I", "hidden J", "raw D", "static sraw I" }, &K::getDescriptor, &K::registerClass, &make<K> });
            r.push_back({ "zoo/Kid", { "static <init> ()Lzoo/Kid;", "static <init> (I)Lzoo/Kid;", "add (I)I", "extra ()I" }, { "own J" }, &Kid::getDescriptor, &Kid::registerClass, &make<Kid> });
            r.push_back({ "zoo/OnlyField", {}, { "x I" }, &OnlyField::getDescriptor, &OnlyField::registerClass, &make<OnlyField> });
            r.push_back({ "zoo/OnlyFunction", { "static f ()I" }, {}, &OnlyFunction::getDescriptor, &OnlyFunction::registerClass, &make<OnlyFunction> });
            r.push_back({ "zoo/OnlyCtor", { "static <init> (I)Lzoo/OnlyCtor;" }, {}, &OnlyCtor::getDescriptor, &OnlyCtor::registerClass, &make<OnlyCtor> });
            r.push_back({ "zoo/Empty", {}, {}, &Empty::getDescriptor, &Empty::registerClass, &make<Empty> });
            return r;
        }();
        return t;
    }
    std::string text(const Members& m) { std::string r; for(auto& x : m) r += x + ", "; return r; }
    // Each entry of the descriptor exactly once
    void members(Vm& v, const Desc& d, const char* when) {
        auto c = v.vm->findClass(d.name);
        MC_CHECK(c, "registered", "%s: %s is not found", when, d.name);
        auto m = methods(*c), f = fields(*c);
        Members extra, missing;
        // Functions of the object are also callable with the object as parameter
        for(auto& x : m) if(!d.m.count(x) && x.find("promotedSelf (Lzoo/K;I)I") == std::string::npos) extra.insert(x);
        for(auto& x : f) if(!d.f.count(x)) extra.insert(x);
        for(auto& x : d.m) if(m.count(x) != 1) missing.insert(x + " x" + std::to_string(m.count(x)));
        for(auto& x : d.f) if(f.count(x) != 1) missing.insert(x + " x" + std::to_string(f.count(x)));
        MC_CHECK(extra.empty() && missing.empty(), "members", "%s: %s: not declared: %s; declared otherwise: %s", when, d.name, text(extra).data(), text(missing).data());
    }
    template<class T> void field(Vm& v, jclass c, jobject o, const char* name, T& variable, int seed, bool stat) {
        std::string sig(1, JT<T>::sig);
        auto id = stat ? v.env->GetStaticFieldID(c, name, sig.data()) : v.env->GetFieldID(c, name, sig.data());
        MC_CHECK(id, "field", "%s is not found", name);
        for(int i = 0; i < 3; ++i) {
            T w = value<T>(seed + i);
            variable = w;
            T g = stat ? JT<T>::sget(v.env, c, id) : JT<T>::get(v.env, o, id);
            MC_CHECK(same(g, w), "field", "%s reads %llx instead of %llx", name, bits(g), bits(w));
            w = value<T>(seed + i + 3);
            if(stat) JT<T>::sset(v.env, c, id, w); else JT<T>::set(v.env, o, id, w);
            MC_CHECK(same(variable, w), "field", "%s is %llx instead of %llx after a write", name, bits(variable), bits(w));
            mc::transition();
        }
    }
    jmethodID method(Vm& v, jclass c, const char* name, const char* sig, bool stat) {
        auto id = stat ? v.env->GetStaticMethodID(c, name, sig) : v.env->GetMethodID(c, name, sig);
        MC_CHECK(id, "method", "%s%s is not found", name, sig);
        if(v.kind == 0) {
            // Not of the other kind
            auto other = stat ? v.env->GetMethodID(c, name, sig) : v.env->GetStaticMethodID(c, name, sig);
            if(strcmp(name, "<init>")) MC_CHECK(!other, "method", "%s%s is both static and not", name, sig);
        }
        mc::transition();
        return id;
    }
#define WANT(g, w, what) do { auto _g = (g); auto _w = (w); MC_CHECK(_g == _w, "binding", "%s: %lld instead of %lld", what, (long long)_g, (long long)_w); } while(0)
    // Everything K declares, on an object whose class is cls
    void use(Vm& v, const char* cls, int seed) {
        auto env = v.env;
        bool derived = strcmp(cls, "zoo/K");
        env->PushLocalFrame(0);
        auto before = K::alive();
        {
        auto c = env->FindClass(cls);
        MC_CHECK(c, "registered", "%s is not found", cls);
        auto o = env->NewObject(c, method(v, c, "<init>", "(I)V", false), 4 + seed);
        MC_CHECK(o, "constructor", "no object");
        auto k = unwrap<K>(env, o);
        MC_CHECK(k && (bool)std::dynamic_pointer_cast<Kid>(k) == derived, "constructor", "another type of object");
        WANT(k->i, 4 + seed + derived, "constructor");
        WANT(k->made, 1, "constructor");
        MC_CHECK(env->IsSameObject(env->GetObjectClass(o), c), "class", "a new %s has another class", cls);
        auto o0 = env->NewObject(c, method(v, c, "<init>", "()V", false));
        WANT(unwrap<K>(env, o0)->made, 0, "constructor without arguments");
        if(!derived) {
            auto s = env->NewStringUTF("abc");
            auto o2 = env->NewObject(c, method(v, c, "<init>", "(Ljava/lang/String;J)V", false), s, (jlong)7 << 40);
            WANT(unwrap<K>(env, o2)->made, 2, "constructor with a string");
            WANT(unwrap<K>(env, o2)->j, (jlong)7 << 40, "constructor with a string");
            MC_CHECK(unwrap<K>(env, o2)->text == unwrap<String>(env, s), "binding", "another string");
            auto o3 = env->NewObject(c, method(v, c, "<init>", "(DFZBCSLzoo/K;)V", false), 1.5, 2.5f, JNI_TRUE, (jbyte)-3, (jchar)0xfff0, (jshort)-5, o);
            auto k3 = unwrap<K>(env, o3);
            MC_CHECK(k3->made == 3 && k3->d == 1.5 && k3->f == 2.5f && k3->z == JNI_TRUE && k3->b == -3 && k3->c == 0xfff0 && k3->s == -5 && k3->self == k, "binding", "constructor with all types");
        }
        field<jboolean>(v, c, o, "z", k->z, seed, false);
        field<jbyte>(v, c, o, "b", k->b, seed, false);
        field<jchar>(v, c, o, "c", k->c, seed, false);
        field<jshort>(v, c, o, "s", k->s, seed, false);
        field<jint>(v, c, o, "i", k->i, seed, false);
        field<jlong>(v, c, o, "j", k->j, seed, false);
        field<jfloat>(v, c, o, "f", k->f, seed, false);
        field<jdouble>(v, c, o, "d", k->d, seed, false);
        field<jint>(v, c, o, "alias", k->i, seed, false);
        field<jlong>(v, c, o, "hidden", k->j, seed, false);
        field<jdouble>(v, c, o, "raw", k->d, seed, false);
        field<jboolean>(v, c, o, "sz", K::sz, seed, true);
        field<jbyte>(v, c, o, "sb", K::sb, seed, true);
        field<jchar>(v, c, o, "sc", K::sc, seed, true);
        field<jshort>(v, c, o, "ss", K::ss, seed, true);
        field<jint>(v, c, o, "si", K::si, seed, true);
        field<jlong>(v, c, o, "sj", K::sj, seed, true);
        field<jfloat>(v, c, o, "sf", K::sf, seed, true);
        field<jdouble>(v, c, o, "sd", K::sd, seed, true);
        field<jint>(v, c, o, "sraw", K::si, seed, true);
        field<jint>(v, c, o, "promotedField", K::promotedField, seed, !promote);
        {
            auto ft = env->GetFieldID(c, "text", "Ljava/lang/String;"), fi = env->GetFieldID(c, "ints", "[I"), fs = env->GetFieldID(c, "strings", "[Ljava/lang/String;"), fo = env->GetFieldID(c, "self", "Lzoo/K;");
            auto fst = env->GetStaticFieldID(c, "stext", "Ljava/lang/String;");
            MC_CHECK(ft && fi && fs && fo && fst, "field", "a field of objects is not found");
            auto s = env->NewStringUTF("t");
            auto a = env->NewIntArray(2);
            auto sa = env->NewObjectArray(1, env->FindClass("java/lang/String"), s);
            env->SetObjectField(o, ft, s);
            env->SetObjectField(o, fi, a);
            env->SetObjectField(o, fs, sa);
            env->SetObjectField(o, fo, o0);
            env->SetStaticObjectField(c, fst, s);
            MC_CHECK(k->text && k->text == unwrap<String>(env, s) && K::stext == k->text && k->ints && k->ints == unwrap<JArray<JInt>>(env, a) && k->strings && (std::shared_ptr<String>)(*k->strings)[0] == k->text && k->self == unwrap<K>(env, o0), "binding", "fields of objects");
            MC_CHECK(env->IsSameObject(env->GetObjectField(o, ft), s) && env->IsSameObject(env->GetObjectField(o, fi), a) && env->IsSameObject(env->GetObjectField(o, fs), sa) && env->IsSameObject(env->GetObjectField(o, fo), o0) && env->IsSameObject(env->GetStaticObjectField(c, fst), s), "binding", "fields of objects");
            K::stext.reset();
            k->self.reset();
        }
        k->i = 6 + seed;
        k->j = 1000;
        WANT(env->CallIntMethod(o, method(v, c, "add", "(I)I", false), 3), derived ? -((6 + seed) * 10 + 3) : (6 + seed) * 10 + 3, "add");
        WANT(env->CallIntMethod(o, method(v, c, "addAlias", "(I)I", false), 3), (6 + seed) * 10 + 3, "addAlias");
        WANT(env->CallLongMethod(o, method(v, c, "addc", "(J)J", false), (jlong)24), 1024, "addc");
        WANT(env->CallIntMethod(o, method(v, c, "virt", "(I)I", false), 1), derived ? 2001 : 1001, "virt");
        auto r = env->CallObjectMethod(o, method(v, c, "me", "(Lzoo/K;)Lzoo/K;", false), o0);
        MC_CHECK(env->IsSameObject(r, o0) && k->self == unwrap<K>(env, o0), "binding", "me");
        k->self.reset();
        env->CallVoidMethod(o, method(v, c, "over", "()V", false));
        WANT(k->i, 1, "over");
        env->CallVoidMethod(o, method(v, c, "over", "(I)V", false), 42);
        WANT(k->i, 42, "over(int)");
        WANT(env->CallIntMethod(o, method(v, c, "over", "(II)I", false), 9, 4), 5, "over(int, int)");
        WANT(env->CallIntMethod(o, method(v, c, "rawFunction", "(II)I", false), 9, 5), 4, "rawFunction");
        WANT(env->CallStaticIntMethod(c, method(v, c, "twice", "(I)I", true), 21), 42, "twice");
        MC_CHECK(env->CallStaticDoubleMethod(c, method(v, c, "half", "(D)D", true), 5.0) == 2.5, "binding", "half");
        WANT(env->CallIntMethod(o, method(v, c, "pub", "(I)I", false), 4), 8, "pub");
        WANT(env->CallIntMethod(o, method(v, c, "promotedSelf", "(I)I", false), 4), 4204, "promotedSelf");
        WANT(env->CallStaticIntMethod(c, method(v, c, "withEnv", "(I)I", true), 4), 9, "withEnv");
        WANT(env->CallStaticIntMethod(c, method(v, c, "withJniEnv", "(I)I", true), 4), 11, "withJniEnv");
        WANT(env->CallStaticIntMethod(c, method(v, c, "freeFunction", "(I)I", true), 4), 13, "freeFunction");
        WANT(env->CallStaticIntMethod(c, method(v, c, "sRawFunction", "(I)I", true), 4), 8, "sRawFunction");
        auto p = method(v, c, "promoted", "(I)I", !promote);
        WANT(promote ? env->CallIntMethod(o, p, 4) : env->CallStaticIntMethod(c, p, 4), 12, "promoted");
        if(derived) {
            WANT(env->CallIntMethod(o, method(v, c, "extra", "()I", false)), 77, "extra");
            field<jlong>(v, c, o, "own", unwrap<Kid>(env, o)->own, seed, false);
        }
        MC_CHECK(!env->ExceptionCheck(), "exception", "an exception is pending");
        }
        env->PopLocalFrame(nullptr);
        WANT(K::alive(), before, "objects alive");
    }
    void small(Vm& v, int which) {
        auto env = v.env;
        auto& d = table()[which];
        env->PushLocalFrame(0);
        auto c = env->FindClass(d.name);
        MC_CHECK(c, "registered", "%s is not found", d.name);
        if(which == 2) {
            auto o = env->NewObject(c, env->GetMethodID(c, "<init>", "()V"));
            env->ExceptionClear();
            o = local(env, std::make_shared<OnlyField>());
            field<jint>(v, c, o, "x", unwrap<OnlyField>(env, o)->x, 1, false);
        }
        if(which == 3) WANT(env->CallStaticIntMethod(c, method(v, c, "f", "()I", true)), 4, "f");
        if(which == 4) WANT(unwrap<OnlyCtor>(env, env->NewObject(c, method(v, c, "<init>", "(I)V", false), 31))->v, 31, "constructor");
        env->PopLocalFrame(nullptr);
    }
    // The order and the ways in which classes are mentioned first
    void history() {
        static const int DEPTH = mc::bound(4, 2, 5, 3);
        int kind = choose(3);
        auto v = std::make_unique<Vm>(kind);
        // Registered; having a class because something mentioned it
        std::vector<bool> known(table().size()), named(table().size());
        std::vector<std::shared_ptr<Class>> ids(table().size());
        for(int step = 0; step < DEPTH; ++step) {
            int op = choose(8);
            if(op == 7) break;
            int which = op < 5 ? choose((int)table().size()) : 0;
            auto& d = table()[which];
            if(which == 1 && !named[0]) break;      // The base class comes first
            log("op %d %s", op, d.name);
            std::shared_ptr<Class> got;
            switch(op) {
            case 0:
                got = d.registre();
                known[which] = true;
                break;
            case 1: got = d.descriptor(); break;
            case 2: {
                // The class of an object made in C++ (described classes are known by then or get known)
                auto o = d.make();
                got = std::shared_ptr<Class>(unwrap<Class>(v->env, v->env->GetObjectClass(v->env->NewLocalRef(static_cast<Env*>(JniEnv::getCurrentEnv())->createLocalReference(o)))));
                break;
            }
            case 3: {
                auto o = d.make();
                auto& c = o->getClass();
                got = v->vm->findClass(d.name);
                MC_CHECK(&c == got.get(), "class", "getClass of %s gives another class", d.name);
                break;
            }
            case 4: {
                // Mentioned by name: only known if somebody made it known
                auto c = v->env->FindClass(d.name);
                v->env->ExceptionClear();
                if(!named[which]) {
                    MC_CHECK(kind != 0 || !c, "strict", "%s is found before it was registered", d.name);
                    if(c) ids[which] = unwrap<Class>(v->env, c);
                    continue;
                }
                got = unwrap<Class>(v->env, c);
                break;
            }
            case 5: {
                std::vector<bool> k(table().size());
                v.reset();
                v = std::make_unique<Vm>(kind);
                known = named = k;
                ids.assign(table().size(), nullptr);
                continue;
            }
            case 6:
                static_cast<JavaVM*>(v->vm.get())->DetachCurrentThread();
                static_cast<JavaVM*>(v->vm.get())->GetEnv((void**)&v->env, JNI_VERSION_1_6);
                continue;
            }
            named[which] = true;
            MC_CHECK(got && got->nativeprefix == d.name, "class", "operation %d on %s gives %s", op, d.name, got ? got->nativeprefix.data() : "nothing");
            MC_CHECK(!ids[which] || ids[which] == got, "class", "operation %d on %s gives another class than before", op, d.name);
            ids[which] = got;
            if(known[which]) members(*v, d, "history");
            mc::transition();
        }
        // Everything works, in the order that was reached
        for(size_t i = 0; i < table().size(); ++i) if(known[i]) members(*v, table()[i], "end");
        if(known[0]) use(*v, "zoo/K", (int)table().size());
        if(known[0] && known[1]) use(*v, "zoo/Kid", 2);
        for(int i = 2; i < 6; ++i) if(known[i]) small(*v, i);
    }
    void values() {
        int kind = choose(3), seed = choose(8), vms = 1 + choose(3), derived = choose(3);
        for(int i = 0; i < vms; ++i) {
            Vm v(i == 0 ? kind : choose(3));
            // The derived class first, too
            if(derived == 2) v.vm->registerClass<Kid>();
            v.vm->registerClass<K>();
            if(derived == 1) v.vm->registerClass<Kid>();
            log("vm %d", v.kind);
            for(int j = 0; j < 2; ++j) {
                use(v, "zoo/K", seed + i + j);
                if(derived) use(v, "zoo/Kid", seed + i + j);
            }
        }
    }
    // An instance member can't be declared static
    void bad() {
        int kind = choose(3), field = choose(2), again = choose(3), how = choose(2);
        for(int i = 0; i <= again; ++i) {
            Vm v(kind);
            log("field %d how %d", field, how);
            for(int j = 0; j < 2; ++j) {
                bool threw = false;
                try {
                    if(how == 0) { if(field) v.vm->registerClass<BadField>(); else v.vm->registerClass<Bad>(); }
                    if(how == 1) { if(field) BadField::registerClass(); else Bad::registerClass(); }
                } catch(const std::runtime_error&) { threw = true; }
                MC_CHECK(threw, "static", "an instance member became static");
                auto c = v.vm->findClass(field ? "zoo/BadField" : "zoo/Bad");
                if(c) MC_CHECK(c->methods.empty() && c->fields.empty(), "static", "a refused member is declared");
            }
            v.vm->registerClass<K>();
            members(v, table()[0], "after a refused descriptor");
            use(v, "zoo/K", 1);
        }
    }
    template<int N> void bigOne(Vm& v, jclass c, jobject o, Big* b, int pass) {
        auto env = v.env;
        auto s = "sf" + std::to_string(N), m = "mf" + std::to_string(N), f = "v" + std::to_string(N);
        WANT(env->CallStaticIntMethod(c, method(v, c, s.data(), "(I)I", true), 5 + pass), N * 1000 + 5 + pass, s.data());
        b->v = 7 * pass;
        WANT(env->CallIntMethod(o, method(v, c, m.data(), "(I)I", false), 5), -(N * 1000 + 5) - 7 * pass, m.data());
        field<jlong>(v, c, o, f.data(), Big::Slot<N>::value, N % 5 + pass, true);
    }
    template<int... N> void bigAll(Vm& v, jclass c, jobject o, Big* b, int pass, std::integer_sequence<int, N...>) {
        (bigOne<N>(v, c, o, b, pass), ...);
    }
    // A class with hundreds of members
    void large() {
        int kind = choose(3), vms = 1 + choose(3), before = choose(3);
        for(int i = 0; i < vms; ++i) {
            Vm v(i == 0 ? kind : (kind + i) % 3);
            log("vm %d", v.kind);
            if(before == 1) { v.env->FindClass("zoo/Big"); v.env->ExceptionClear(); }
            if(before == 2) Big::getDescriptor();
            v.vm->registerClass<Big>();
            v.vm->registerClass<Big>();
            auto k = v.vm->findClass("zoo/Big");
            MC_CHECK(k && k->methods.size() == 161 && k->fields.size() == 80, "members", "%zu methods and %zu fields instead of 161 and 80", k->methods.size(), k->fields.size());
            auto c = v.env->FindClass("zoo/Big");
            auto o = v.env->NewObject(c, method(v, c, "<init>", "()V", false));
            for(int p = 0; p < 2; ++p) bigAll(v, c, o, unwrap<Big>(v.env, o).get(), p, std::make_integer_sequence<int, 80>());
            mc::state((uint64_t)(kind * 100 + vms * 10 + before));
        }
    }
    int init = [] {
        mc::scenario("history", history, 3);
        mc::scenario("values", values, 2);
        mc::scenario("bad", bad, 1);
        mc::scenario("large", large, 1);
        return 0;
    }();
}
