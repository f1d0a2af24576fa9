// P27: parsing of signatures: all strings, all well-formed signatures, all corruptions of them, derived signatures
#include "../mc/jtypes.hpp"
#include <jnivm/internal/jValuesfromValist.h>
#include <jnivm/internal/skipJNIType.h>
#include <jnivm/internal/codegen/parseJNIType.h>
#include <sys/mman.h>
#include <sstream>
using namespace jh;

namespace {
    // Memory between two inaccessible pages, any access beside the string ends the process
    struct Guarded {
        static constexpr size_t SIZE = 1 << 16;
        char* base;
        Guarded() {
            base = (char*)mmap(nullptr, SIZE + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            mprotect(base + 4096, SIZE, PROT_READ | PROT_WRITE);
        }
        // The terminator at the end of the accessible memory or the first character at its beginning
        const char* put(const std::string& s, bool atEnd) {
            char* p = atEnd ? base + 4096 + SIZE - s.size() - 1 : base + 4096;
            memcpy(p, s.data(), s.size() + 1);
            return p;
        }
    };
    Guarded& guarded() { static Guarded g; return g; }

    // The reference grammar: length of the type at s, 0 if there is none, -1 if it is not terminated
    long typeLen(const std::string& s, size_t at) {
        size_t i = at;
        while(i < s.size() && s[i] == '[') i++;
        if(i == s.size()) return 0;
        if(strchr("ZBCSIJFD", s[i])) return (long)(i + 1 - at);
        if(s[i] != 'L') return 0;
        size_t e = s.find(';', i);
        if(e == std::string::npos) return -1;
        return (long)(e + 1 - at);
    }
    enum Verdict { Good, Unterminated, Other };
    Verdict parameters(const std::string& s, std::vector<std::string>& p) {
        if(s.empty() || s[0] != '(') return Other;
        size_t i = 1;
        for(;;) {
            if(i == s.size()) return Other;
            if(s[i] == ')') return Good;
            long l = typeLen(s, i);
            if(l < 0) return Unterminated;
            if(!l) return Other;
            p.push_back(s.substr(i, l));
            i += l;
        }
    }
    jvalue valueOf(char c, int salt) {
        jvalue v;
        memset(&v, 0, sizeof(v));
        switch(c) {
        case 'Z': v.z = value<jboolean>(salt); break;
        case 'B': v.b = value<jbyte>(salt); break;
        case 'C': v.c = value<jchar>(salt); break;
        case 'S': v.s = value<jshort>(salt); break;
        case 'I': v.i = value<jint>(salt); break;
        case 'J': v.j = value<jlong>(salt); break;
        case 'F': v.f = value<jfloat>(salt); break;
        case 'D': v.d = value<jdouble>(salt); break;
        default: v.l = (jobject)(0x1000ull * (salt + 1)); break;
        }
        return v;
    }
    bool sameValue(char c, jvalue a, jvalue b) {
        switch(c) {
        case 'Z': return a.z == b.z;
        case 'B': return a.b == b.b;
        case 'C': return a.c == b.c;
        case 'S': return a.s == b.s;
        case 'I': return a.i == b.i;
        case 'J': return a.j == b.j;
        case 'F': return same(a.f, b.f);
        case 'D': return same(a.d, b.d);
        default: return a.l == b.l;
        }
    }
    void arguments(const std::string& s, const char* at) {
        std::vector<std::string> p;
        Verdict v = parameters(s, p);
        std::vector<std::pair<bool, uint64_t>> slots;
        for(size_t i = 0; i < p.size(); ++i) {
            char c = p[i][0];
            jvalue x = valueOf(c, (int)i);
            if(c == 'F') { double d = x.f; uint64_t u; memcpy(&u, &d, 8); slots.push_back({true, u}); }
            else if(c == 'D') slots.push_back({true, bits(x.d)});
            else if(c == 'J' || c == 'L' || c == '[') slots.push_back({false, (uint64_t)x.j});
            else slots.push_back({false, (uint64_t)(uint32_t)(c == 'Z' ? (int)x.z : c == 'B' ? (int)x.b : c == 'C' ? (int)x.c : c == 'S' ? (int)x.s : x.i) | 0xA5A5A5A500000000ull});
        }
        // More than a wrong number of arguments could use
        for(size_t i = 0; i < s.size() + 16; ++i) slots.push_back({i % 2 == 0, 0});
        VaArgs va;
        va.build(slots, 0);
        bool thrown = false;
        std::vector<jvalue> got;
        try {
            got = va.with([&](va_list l) { return JValuesfromValist(l, at); });
        } catch(const std::exception&) { thrown = true; }
        if(v == Unterminated) MC_CHECK(thrown, "unterminated", "'%s': the argument type without its terminator is not reported", s.data());
        if(v != Good) return;
        MC_CHECK(!thrown, "rejected", "the arguments of '%s' are rejected", s.data());
        MC_CHECK(got.size() == p.size(), "count", "'%s' has %zu parameters, read as %zu", s.data(), p.size(), got.size());
        for(size_t i = 0; i < p.size(); ++i)
            MC_CHECK(sameValue(p[i][0], got[i], valueOf(p[i][0], (int)i)), "value", "'%s': parameter %zu read as %llx", s.data(), i, bits(got[i].j));
    }
    std::string cppType(const std::string& t) {
        static const std::map<char, std::string> names = {{'Z', "Boolean"}, {'B', "Byte"}, {'C', "Char"}, {'S', "Short"}, {'I', "Int"}, {'J', "Long"}, {'F', "Float"}, {'D', "Double"}};
        auto n = names.find(t[0]);
        if(n == names.end()) return "";
        if(JNIVM_FAKE_JNI_SYNTAX) return "FakeJni::J" + n->second;
        std::string r = "j" + n->second;
        r[1] = tolower(r[1]);
        return r;
    }
    void types(const std::string& s, const char* at, size_t from = 0) {
        const char* end = at + s.size();
        size_t steps = 0;
        for(const char* cur = at + from; cur != end;) {
            long l = typeLen(s, cur - at);
            const char* n = SkipJNIType(cur, end);
            MC_CHECK(n > cur && n <= end, "skip", "'%s': skipping the type at %zd leads to %zd", s.data(), cur - at, n - at);
            if(l > 0) MC_CHECK(n == cur + l, "skip", "'%s': the type at %zd is %ld long, skipped as %zd", s.data(), cur - at, l, n - cur);
            std::string t;
            const char* q = ParseJNIType(cur, end, t);
            MC_CHECK(q >= cur && q < end, "parse", "'%s': parsing the type at %zd leads to %zd", s.data(), cur - at, q - at);
            if(l > 0) {
                MC_CHECK(q == cur + l - 1, "parse", "'%s': the type at %zd is %ld long, parsed as %zd", s.data(), cur - at, l, q + 1 - cur);
                MC_CHECK(!t.empty(), "parse", "'%s': the type at %zd has no translation", s.data(), cur - at);
                auto c = cppType(s.substr(cur - at, l));
                if(!c.empty()) MC_CHECK(t == c, "parse", "'%s': the type at %zd is translated to %s", s.data(), cur - at, t.data());
            }
            cur = n;
            MC_CHECK(++steps <= s.size(), "termination", "'%s'", s.data());
        }
    }
    void whole(const std::string& s) {
        if(mc::verbose()) mc::log("'%s'", s.data());
        for(bool atEnd : {true, false}) {
            auto p = guarded().put(s, atEnd);
            arguments(s, p);
            types(s, p);
        }
        mc::transition();
    }
    void extend(const std::string& s, const char* alphabet, int more) {
        whole(s);
        mc::state(std::hash<std::string>()(s));
        if(more) for(const char* c = alphabet; *c; ++c) extend(s + *c, alphabet, more - 1);
    }
    const char ALPHABET[] = "()[L;IJV/";
    void strings() {
        int n = mc::bound(6, 5, 8, 6);
        std::string s;
        if(choose(2) == 0) {
            for(int i = choose(3); i > 0; --i) s += ALPHABET[choose(9)];
            whole(s);
            mc::state(std::hash<std::string>()(s));
            return;
        }
        for(int i = 0; i < 3; ++i) s += ALPHABET[choose(9)];
        extend(s, ALPHABET, n - 3);
    }
    // Longer argument lists: the first character is always '('
    void lists() {
        static const char A[] = ")[L;DZ";
        int n = mc::bound(8, 6, 10, 7);
        std::string s = "(";
        for(int i = 0; i < 3; ++i) s += A[choose(6)];
        extend(s, A, n - 4);
    }

    const std::vector<std::string>& good() {
        static const std::vector<std::string> t = {
            "I", "J", "D", "F", "Z", "B", "C", "S", "Lp/A;", "[I", "[Lp/A;", "[[J", "LJ;", "Lp/q/r/II$D;",
            // Characters with a meaning elsewhere are allowed in names
            "L(I)V;", "[[[L)$(;", "LL;", "[[[[[Z", "L\xc3\xa4/\xe2\x82\xac;", "LV;",
        };
        return t;
    }
    void wellFormed() {
        int n = mc::bound(4, 3, 5, 4), limit = (int)good().size();
        std::string s = "(";
        int l = choose(n + 1);
        for(int i = 0; i < l; ++i) s += good()[choose(i >= 3 ? 14 : limit)];
        s += ")";
        static const char* ret[] = {"V", "I", "Lp/A;", "[[Lp/A;"};
        for(auto r : ret) {
            whole(s + r);
            if(l == n) break;
        }
    }
    // All changes of one character, all truncations
    void corruptions() {
        int n = mc::bound(3, 2, 4, 3);
        static const int K[] = {0, 2, 8, 9, 10, 11};
        std::string s = "(";
        int l = choose(n + 1);
        for(int i = 0; i < l; ++i) s += good()[K[choose(6)]];
        s += choose(2) ? ")V" : ")[Lp/A;";
        for(size_t i = 0; i <= s.size(); ++i) {
            whole(s.substr(0, i));
            if(i < s.size()) whole(s.substr(0, i) + s.substr(i + 1));
            for(char c : {'(', ')', '[', 'L', ';', 'I', 'J', 'F', 'V', '/', 'X', '\x80', '\xff'}) {
                whole(s.substr(0, i) + c + s.substr(i));
                if(i < s.size()) whole(s.substr(0, i) + c + s.substr(i + 1));
            }
        }
    }
    void sizesOf() {
        int kind = choose(6), n = chooseSize(mc::bound(4097, 513, 4097, 4097));
        std::string s = "(";
        switch(kind) {
        case 0: for(int i = 0; i < n; ++i) s += good()[i % 14]; break;
        case 1: s += "L" + std::string(n, 'n') + ";"; break;
        case 2: s += std::string(n, '[') + "I"; break;
        case 3: s += std::string(n, '[') + "Lp/A;D"; break;
        case 4: for(int i = 0; i < n; ++i) s += "p/"; s = "(L" + s.substr(1) + "A;J"; break;
        case 5: for(int i = 0; i < n; ++i) s += "[F"; break;
        }
        whole(s + ")V");
        whole(s);
        for(int cut : {1, 2, 3, 5}) if((int)s.size() > cut) whole(s.substr(0, s.size() - cut));
    }

    // The same strings as signatures of members: looked up, called and generated
    struct Tr : Tracked<> {};
    void use(JNIEnv* env, jclass c, jobject o, const std::string& s) {
        if(mc::verbose()) mc::log("member '%s'", s.data());
        auto p = guarded().put(s, true);
        auto m = env->GetMethodID(c, "m", p), st = env->GetStaticMethodID(c, "s", p);
        auto f = env->GetFieldID(c, "f", p);
        auto sf = env->GetStaticFieldID(c, "g", p);
        MC_CHECK(m && st && f && sf, "lookup", "no member with '%s'", s.data());
        p = guarded().put(s, false);
        MC_CHECK(env->GetMethodID(c, "m", p) == m && env->GetStaticMethodID(c, "s", p) == st && env->GetFieldID(c, "f", p) == f && env->GetStaticFieldID(c, "g", p) == sf, "lookup", "other members with '%s'", s.data());
        auto init = env->GetMethodID(c, "<init>", p);
        MC_CHECK(init, "lookup", "no constructor with '%s'", s.data());
        std::vector<std::string> params;
        Verdict v = parameters(s, params);
        env->PushLocalFrame(0);
        for(int k = 0; k < 4; ++k) {
            bool thrown = false;
            VaArgs va;
            va.build(std::vector<std::pair<bool, uint64_t>>(s.size() + 16, {false, 0}), 3);
            try {
                va.with([&](va_list l) {
                    if(k == 0) (void)env->CallObjectMethodV(o, m, l);
                    else if(k == 1) (void)env->CallStaticObjectMethodV(c, st, l);
                    else if(k == 2) (void)env->CallNonvirtualIntMethodV(o, c, m, l);
                    else (void)env->CallStaticVoidMethodV(c, st, l);
                });
            } catch(const std::exception&) { thrown = true; }
            bool raised = thrown || env->ExceptionCheck();
            env->ExceptionClear();
            if(v == Good) MC_CHECK(!raised, "rejected", "a call with '%s' failed", s.data());
            if(v == Unterminated) MC_CHECK(raised, "unterminated", "a call with '%s' did not fail", s.data());
        }
        (void)env->GetObjectField(o, f);
        (void)env->GetStaticObjectField(c, sf);
        env->PopLocalFrame(nullptr);
        mc::transition();
    }
    void extendUse(JNIEnv* env, jclass c, jobject o, const std::string& prefix, const std::string& s, int more) {
        use(env, c, o, prefix + s);
        if(more) for(const char* x = ALPHABET; *x; ++x) extendUse(env, c, o, prefix, s + *x, more - 1);
    }
    void members() {
        // Signatures short and long enough for the heap
        static const char* prefixes[] = {"", "(IIIIIIIIIIIIIIIIIIII", "(Ljava/lang/some/long/name;"};
        std::string prefix = prefixes[choose(3)];
        int n = mc::bound(5, 4, 6, 5);
        std::string s;
        for(int i = 0; i < 2; ++i) s += ALPHABET[choose(9)];
        VM vm;
        auto env = vm.GetJNIEnv();
        auto cls = E(env)->GetClass<Tr>("p/Tr");
        auto c = (jclass)(Object*)cls.get();
        auto o = local(env, std::make_shared<Tr>());
        extendUse(env, c, o, prefix, s, n - 3);
        for(int part = 0; part < 5; ++part) {
            std::string g = part == 0 ? vm.GeneratePreDeclaration() : part == 1 ? vm.GenerateHeader() : part == 2 ? vm.GenerateStubs() : part == 3 ? vm.GenerateJNIPreDeclaration() : vm.GenerateJNIBinding();
            MC_CHECK(!g.empty(), "generate", "nothing generated");
        }
    }

    // Signatures derived from the types of native functions
    template<class T> using SP = std::shared_ptr<T>;
    template<class T> using Arr = jnivm::Array<T>;
    struct Named : Object {
        static std::string getClassName() { return "p/Named"; }
    };
    template<class T> struct Sig;
#define SIG(T, S) template<> struct Sig<T> { static const char* s() { return S; } };
    SIG(jboolean, "Z") SIG(bool, "Z") SIG(jbyte, "B") SIG(jchar, "C") SIG(jshort, "S") SIG(jint, "I") SIG(jlong, "J") SIG(jfloat, "F") SIG(jdouble, "D")
    SIG(jobject, "Ljava/lang/Object;")
    SIG(SP<Object>, "Ljava/lang/Object;") SIG(SP<String>, "Ljava/lang/String;") SIG(SP<Class>, "Ljava/lang/Class;") SIG(SP<Throwable>, "Ljava/lang/Throwable;")
    SIG(SP<Tr>, "Lp/Tr;") SIG(SP<Named>, "Lp/Named;") SIG(SP<Arr<jint>>, "[I") SIG(SP<Arr<jboolean>>, "[Z") SIG(SP<Arr<jdouble>>, "[D") SIG(SP<Arr<Tr>>, "[Lp/Tr;") SIG(SP<Arr<Named>>, "[Lp/Named;")
    SIG(SP<Arr<Arr<jlong>>>, "[[J") SIG(SP<Arr<Arr<Arr<String>>>>, "[[[Ljava/lang/String;") SIG(void, "V")
    template<class T> struct RefSig { static std::string s() { return Sig<T>::s(); } };
    struct Derived {
        VM vm{false, true};
        JNIEnv* env = vm.GetJNIEnv();
        ENV* e = E(env);
        SP<Class> cls = e->GetClass<Tr>("p/Tr");
        jclass c = (jclass)(Object*)cls.get();
        // Functions that take their class or object first are installed in both readings
        void expect(bool st, const char* name, const std::string& sig, const std::string& literal = "") {
            bool found = false;
            for(auto& m : cls->methods) {
                MC_CHECK(m->signature == sig || m->signature == literal, "derived", "%s is %s instead of %s", name, m->signature.data(), sig.data());
                found |= m->signature == sig;
            }
            MC_CHECK(found, "derived", "%s%s is missing", name, sig.data());
            auto id = st ? env->GetStaticMethodID(c, name, sig.data()) : env->GetMethodID(c, name, sig.data());
            MC_CHECK(id, "derived", "%s%s is not found", name, sig.data());
            cls->methods.clear();
            mc::transition();
        }
        void expectField(bool st, const char* name, const std::string& sig) {
            MC_CHECK(cls->fields.size() == 1 && cls->fields[0]->type == sig, "derived", "field %s is %s instead of %s", name, cls->fields.empty() ? "missing" : cls->fields[0]->type.data(), sig.data());
            auto id = st ? env->GetStaticFieldID(c, name, sig.data()) : env->GetFieldID(c, name, sig.data());
            MC_CHECK(id, "derived", "field %s %s is not found", name, sig.data());
            cls->fields.clear();
            mc::transition();
        }
        template<class T> void one() {
            std::string t = Sig<T>::s();
            cls->Hook(e, "a", [](T) {});
            expect(true, "a", "(" + t + ")V");
            cls->Hook(e, "b", []() -> T { return {}; });
            expect(true, "b", "()" + t);
            cls->Hook(e, "c", [](ENV*, Class*, T, T) -> T { return {}; });
            expect(true, "c", "(" + t + t + ")" + t, "(Ljava/lang/Class;" + t + t + ")" + t);
            cls->HookInstanceFunction(e, "d", [](ENV*, Object*, T, jint, T) -> T { return {}; });
            expect(false, "d", "(" + t + "I" + t + ")" + t, "(Ljava/lang/Object;" + t + "I" + t + ")" + t);
            cls->HookInstanceFunction(e, "e", [](Tr*, jdouble, T) {});
            expect(false, "e", "(D" + t + ")V", "(Lp/Tr;D" + t + ")V");
            cls->Hook(e, "<init>", [](Class*, T, jlong) -> SP<Tr> { return {}; });
            expect(true, "<init>", "(" + t + "J)Lp/Tr;", "(Ljava/lang/Class;" + t + "J)Lp/Tr;");
            cls->HookGetterFunction(e, "g", []() -> T { return {}; });
            expectField(true, "g", t);
            cls->HookSetterFunction(e, "h", [](T) {});
            expectField(true, "h", t);
            cls->HookInstanceGetterFunction(e, "i", [](Object*) -> T { return {}; });
            expectField(false, "i", t);
            cls->HookInstanceSetterFunction(e, "j", [](Object*, T) {});
            expectField(false, "j", t);
        }
        template<class...T> void all(int k) {
            int i = 0;
            (void)std::initializer_list<int>{(i++ == k ? (one<T>(), 0) : 0)...};
        }
    };
    void derived() {
        int k = choose(23);
        Derived d;
        // Types are known by their registration or their own name
        if(choose(2)) d.e->GetClass<Named>("p/Named");
        d.all<jboolean, bool, jbyte, jchar, jshort, jint, jlong, jfloat, jdouble, jobject, SP<Object>, SP<String>, SP<Class>, SP<Throwable>,
              SP<Tr>, SP<Named>, SP<Arr<jint>>, SP<Arr<jboolean>>, SP<Arr<jdouble>>, SP<Arr<Tr>>, SP<Arr<Named>>, SP<Arr<Arr<jlong>>>, SP<Arr<Arr<Arr<String>>>>>(k);
    }
    static int init = [] {
        mc::scenario("strings", strings);
        mc::scenario("lists", lists);
        mc::scenario("well-formed", wellFormed);
        mc::scenario("corruptions", corruptions);
        mc::scenario("sizes", sizesOf);
        mc::scenario("members", members);
        mc::scenario("derived", derived, 1);
        return 0;
    }();
}
