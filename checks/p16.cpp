// P16: deny rules of the auto-declaring VM
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    struct Base : Extends<> { jint v = 0; };
    struct Derived : Extends<Base> {};

    const char* const ANY = "";
    const char* const ruleClasses[] = {ANY, "p/A", "p/A$B"};
    const char* const ruleNames[] = {ANY, "m", "<init>"};
    const char* const ruleSigs[2][3] = {{ANY, "()V", "(I)V"}, {ANY, "I", "[I"}};
    const char* const queryClasses[] = {"p/A", "p/AA", "p/A$B", "A"};
    const char* const queryNames[] = {"m", "mm", "<init>"};
    const char* const querySigs[2][2] = {{"()V", "(I)V"}, {"I", "[I"}};

    struct Rule { int kind; std::string name, sig, clazz; };
    bool eq(const std::string& rule, const std::string& q) { return rule.empty() || rule == q; }
    bool matches(const Rule& r, int kind, const std::string& name, const std::string& sig, const std::string& clazz) {
        return r.kind == kind && eq(r.name, name) && eq(r.sig, sig) && eq(r.clazz, clazz);
    }
    bool denied(const std::vector<Rule>& rules, int kind, const std::string& name, const std::string& sig, const std::string& clazz) {
        for(auto&& r : rules) if(matches(r, kind, name, sig, clazz)) return true;
        return false;
    }
    void add(Baron::Jvm& vm, const Rule& r, bool old) {
        log("deny %s %s %s %s", r.kind == 0 ? "method" : r.kind == 1 ? "field" : "class", r.name.data(), r.sig.data(), r.clazz.data());
        if(r.kind == 2) { if(old) vm.blacklistClass(r.name.data()); else vm.denyClass(r.name.data()); }
        else if(r.kind == 0) {
            if(r.clazz.empty()) { if(old) vm.blacklistMethod(r.name.data(), r.sig.data()); else vm.denyMethod(r.name.data(), r.sig.data()); }
            else if(old) vm.blacklistMethod(r.name.data(), r.sig.data(), r.clazz.data()); else vm.denyMethod(r.name.data(), r.sig.data(), r.clazz.data());
        } else {
            if(r.clazz.empty()) { if(old) vm.blacklistField(r.name.data(), r.sig.data()); else vm.denyField(r.name.data(), r.sig.data()); }
            else if(old) vm.blacklistField(r.name.data(), r.sig.data(), r.clazz.data()); else vm.denyField(r.name.data(), r.sig.data(), r.clazz.data());
        }
    }
    void* member(JNIEnv* env, int kind, bool stat, jclass c, const char* n, const char* s) {
        if(kind == 0) return stat ? (void*)env->GetStaticMethodID(c, n, s) : (void*)env->GetMethodID(c, n, s);
        return stat ? (void*)env->GetStaticFieldID(c, n, s) : (void*)env->GetFieldID(c, n, s);
    }

    // Sets of rules in all orders against all queries
    void rules() {
        int n = mc::bound(3, 2, 3, 3);
        std::vector<Rule> rs;
        int kindOfQuery = choose(2);
        int count = choose(n + 1);
        for(int i = 0; i < count; ++i) {
            // The last rule may also be of the other kind
            int kind = i == count - 1 && choose(2) ? 1 - kindOfQuery : kindOfQuery;
            rs.push_back({kind, ruleNames[choose(3)], ruleSigs[kind][choose(3)], ruleClasses[choose(3)]});
        }
        auto install = [&](Baron::Jvm& vm) { for(auto&& r : rs) add(vm, r, false); };
        Baron::Jvm vm;
        install(vm);
        FakeJni::LocalFrame frame(vm);
        JNIEnv* env = &frame.getJniEnv();
        uint64_t h = kindOfQuery;
        for(int round = 0; round < 2; ++round) for(auto cn : queryClasses) {
            auto c = env->FindClass(cn);
            MC_CHECK(c, "class", "%s without a class rule", cn);
            for(auto mn : queryNames) for(auto sig : querySigs[kindOfQuery]) for(int st = 0; st < 2; ++st) {
                bool want = !denied(rs, kindOfQuery, mn, sig, cn);
                auto id = member(env, kindOfQuery, st, c, mn, sig);
                MC_CHECK((bool)id == want, "member", "%s%s %s.%s%s: %s, expected %s", st ? "static " : "", kindOfQuery ? "field" : "method", cn, mn, sig, id ? "found" : "null", want ? "found" : "null");
                mc::transition();
                h = mc::mix(h, want);
            }
        }
        // The queries of the rules themselves, an omitted part matches everything
        for(auto mn : queryNames) for(auto sig : querySigs[kindOfQuery]) {
            bool want = false;
            for(auto&& r : rs) want = want || (r.kind == kindOfQuery && eq(r.name, mn) && eq(r.sig, sig));
            MC_CHECK((kindOfQuery ? vm.isFieldDenied(mn, sig) : vm.isMethodDenied(mn, sig)) == want, "query", "%s%s in any class", mn, sig);
            for(auto cn : queryClasses)
                MC_CHECK((kindOfQuery ? vm.isFieldDenied(mn, sig, cn) : vm.isMethodDenied(mn, sig, cn)) == denied(rs, kindOfQuery, mn, sig, cn), "query", "%s.%s%s", cn, mn, sig);
        }
        mc::state(h);
    }
    // Sets of class rules against all lookups
    const char* const classNames[] = {"p/A", "p/AA", "p/A$B", "p/A$B$C", "A", "p/q/A"};
    void classRules() {
        std::vector<Rule> rs;
        int n = mc::bound(3, 2, 4, 3), count = choose(n + 1);
        for(int i = 0; i < count; ++i) rs.push_back({2, classNames[choose(6)], "", ""});
        bool inSetup = choose(2);
        auto install = [&](Baron::Jvm* vm) { for(auto&& r : rs) add(*vm, r, inSetup); };
        std::unique_ptr<Baron::Jvm> vm(inSetup ? new Baron::Jvm(install) : new Baron::Jvm());
        if(!inSetup) install(vm.get());
        FakeJni::LocalFrame frame(*vm);
        JNIEnv* env = &frame.getJniEnv();
        std::set<std::string> declared;
        // All orders of two lookups by name, then all
        int a = choose(6), b = choose(6), how = choose(4);
        std::vector<std::pair<const char*, bool>> q = {{classNames[a], how & 1}, {classNames[b], how & 2}};
        for(auto cn : classNames) { q.push_back({cn, false}); q.push_back({cn, true}); }
        uint64_t h = 1;
        for(auto&& x : q) {
            std::string nm = x.first;
            bool want = declared.count(nm) || !denied(rs, 2, nm, "", "");
            bool got;
            if(x.second) { auto c = vm->findClass(nm.data()); got = (bool)c; MC_CHECK(!c || c->getName() == nm, "class name", "%s", nm.data()); }
            else { auto c = env->FindClass(nm.data()); got = c; MC_CHECK(!c || unwrap<Class>(env, c)->getName() == nm, "class name", "%s", nm.data()); }
            MC_CHECK(got == want, "class", "%s by %s: %s, expected %s", nm.data(), x.second ? "findClass" : "FindClass", got ? "found" : "null", want ? "found" : "null");
            if(want) for(size_t i = nm.rfind('/') == std::string::npos ? 0 : nm.rfind('/'); i <= nm.size(); ++i) // With its outer classes
                if(i == nm.size() || nm[i] == '$') declared.insert(nm.substr(0, i));
            MC_CHECK(vm->isClassDenied(nm.data()) == denied(rs, 2, nm, "", "") && vm->isClassBlacklisted(nm.data()) == vm->isClassDenied(nm.data()), "query", "%s", nm.data());
            mc::transition();
            h = mc::mix(h, want);
        }
        mc::state(h);
    }
    // Histories of rules, lookups and declarations over a base and a derived class, on two threads
    struct World {
        Baron::Jvm vm;
        FakeJni::LocalFrame frame{vm};
        JNIEnv* env = &frame.getJniEnv();
        std::vector<Rule> rules;
        std::shared_ptr<Class> base, derived;
        jclass jc[3];
        std::set<std::string> members; // kind static class name sig
        std::map<std::string, void*> ids;
        std::set<std::string> declared;
        World() {
            base = E(env)->GetClass<Base>("p/Base");
            derived = E(env)->GetClass<Derived>("p/Derived");
            jc[0] = (jclass)(Object*)base.get();
            jc[1] = (jclass)(Object*)derived.get();
            jc[2] = env->FindClass("p/Other");
            declared = {"p/Base", "p/Derived", "p/Other"};
        }
        static const char* cname(int c) { static const char* n[] = {"p/Base", "p/Derived", "p/Other"}; return n[c]; }
        static std::string key(int kind, int st, int c, const std::string& n, const std::string& s) { return std::to_string(kind) + std::to_string(st) + std::to_string(c) + n + " " + s; }
        static std::string effective(int kind, int st, int c, const std::string& n, const std::string& s) { return s; }
        void lookup(JNIEnv* env, int kind, int st, int c, const char* n, const char* s) {
            int where = -1;
            if(members.count(key(kind, st, c, n, s))) where = c;
            else if(c == 1 && members.count(key(kind, st, 0, n, s))) where = 0;
            bool want = where >= 0 || !denied(rules, kind, n, s, cname(c));
            auto id = member(env, kind, st, jc[c], n, s);
            log("lookup %s%s %s.%s%s -> %p", st ? "static " : "", kind ? "field" : "method", cname(c), n, s, id);
            MC_CHECK((bool)id == want, "member", "%s%s %s.%s%s: %s, expected %s", st ? "static " : "", kind ? "field" : "method", cname(c), n, s, id ? "found" : "null", want ? "found" : "null");
            if(want) {
                if(where < 0) {
                    where = c;
                    members.insert(key(kind, st, c, n, s));
                    std::string sig = s;
                    auto l = sig.find('L');
                    if(l != std::string::npos) declared.insert(sig.substr(l + 1, sig.find(';') - l - 1));
                }
                auto& known = ids[key(kind, st, where, n, s)];
                MC_CHECK(!known || known == id, "id", "%s.%s%s changed", cname(c), n, s);
                known = id;
            }
            mc::transition();
        }
        void find(JNIEnv* env, const char* n) {
            bool want = declared.count(n) || !denied(rules, 2, n, "", "");
            auto c = env->FindClass(n);
            log("FindClass %s -> %p", n, c);
            MC_CHECK((bool)c == want, "class", "%s: %s, expected %s", n, c ? "found" : "null", want ? "found" : "null");
            if(want) declared.insert(n);
            mc::transition();
        }
        void implement(int c, int what) {
            auto e = E(env);
            auto& cl = c ? derived : base;
            log("implement %d in %s", what, cname(c));
            switch(what) {
            case 0: cl->Hook(e, "m", [](jint) {}); members.insert(key(0, 1, c, "m", "(I)V")); break;
            case 1: cl->HookInstanceFunction(e, "m", [](Object*, jint) {}); members.insert(key(0, 0, c, "m", "(I)V")); break;
            case 2: { static jint v; cl->Hook(e, "f", &v); members.insert(key(1, 1, c, "f", "I")); break; }
            case 3: cl->HookInstanceGetterFunction(e, "f", [](Object*) -> jint { return 1; }); members.insert(key(1, 0, c, "f", "I")); break;
            }
        }
        void all(JNIEnv* env, bool check) {
            // What is known stays visible, by everybody
            for(auto&& k : ids) if(k.second) {
                int kind = k.first[0] - '0', st = k.first[1] - '0', c = k.first[2] - '0';
                auto sp = k.first.find(' ');
                lookup(env, kind, st, c, k.first.substr(3, sp - 3).data(), k.first.substr(sp + 1).data());
            }
            for(auto&& d : declared) MC_CHECK(env->FindClass(d.data()), "class", "%s is not found any more", d.data());
        }
    };
    void histories() {
        World w;
        int n = mc::bound(4, 3, 5, 4), who = choose(2);
        if(who) n--;
        std::unique_ptr<Peer> peer;
        auto on = [&](bool other, std::function<void(JNIEnv*)> f) {
            if(!other) { f(w.env); return; }
            if(!peer) { peer.reset(new Peer); }
            peer->run([&] { FakeJni::LocalFrame l(w.vm); f(&l.getJniEnv()); });
        };
        static const Rule rules[] = {
            {0, "m", "(I)V", "p/Derived"}, {0, "m", "", "p/Base"}, {0, "", "(I)V", ""}, {0, "m", "()Lp/New;", ""}, {0, "", "", "p/Base"},
            {1, "f", "I", "p/Base"}, {1, "f", "", ""}, {1, "", "", "p/Derived"}, {2, "p/New", "", ""}, {2, "p/Derived", "", ""},
        };
        for(int i = 0; i < n; ++i) {
            int op = choose(10 + 6 + 5 + 8 + 3);
            if(op < 10) { add(w.vm, rules[op], i & 1); w.rules.push_back(rules[op]); }
            else if((op -= 10) < 6) on(who && i % 2, [&](JNIEnv* e) { w.lookup(e, 0, op & 1, op / 2, "m", "(I)V"); });
            else if((op -= 6) < 5) on(who && i % 2, [&](JNIEnv* e) { if(op < 4) w.lookup(e, 1, op & 1, op / 2, "f", "I"); else w.lookup(e, 0, 0, 2, "m", "()Lp/New;"); });
            else if((op -= 5) < 8) w.implement(op & 1, op / 2);
            else if((op -= 8) < 3) { static const char* c[] = {"p/New", "p/Derived", "p/Other"}; on(who && i % 2, [&](JNIEnv* e) { w.find(e, c[op]); }); }
            on(who, [&](JNIEnv* e) { w.all(e, true); });
            uint64_t h = mc::mix(n, w.rules.size());
            for(auto&& m : w.members) h = mc::mix(h, std::hash<std::string>()(m));
            for(auto&& d : w.declared) h = mc::mix(h, std::hash<std::string>()(d));
            for(auto&& r : w.rules) h = mc::mix(h, std::hash<std::string>()(r.name + r.sig + r.clazz) + r.kind);
            mc::state(h);
        }
        // Then everything
        for(int c = 0; c < 3; ++c) for(int st = 0; st < 2; ++st) {
            w.lookup(w.env, 0, st, c, "m", "(I)V");
            w.lookup(w.env, 1, st, c, "f", "I");
            w.lookup(w.env, 0, st, c, "m", "()V");
        }
        w.find(w.env, "p/New");
        w.find(w.env, "p/Any");
        peer.reset();
    }
    // Inherited by a third level, constructors
    void constructors() {
        World w;
        auto e = E(w.env);
        static const char* cls[] = {"p/Base", "p/Derived", "p/Other"};
        int rc = choose(4), rs = choose(3), rn = choose(3);
        static const char* rsig[] = {"", "()V", "(I)V"};
        static const char* rname[] = {"", "<init>", "m"};
        Rule r{0, rname[rn], rsig[rs], rc < 3 ? cls[rc] : ""};
        bool before = choose(2);
        if(before) { add(w.vm, r, false); w.rules.push_back(r); }
        int hook = choose(4);
        std::set<std::string> known;
        if(hook & 1) { w.base->Hook(e, "<init>", [](jint) { return std::make_shared<Base>(); }); known.insert("p/Base(I)V"); }
        if(hook & 2) { w.derived->Hook(e, "<init>", []() { return std::make_shared<Derived>(); }); known.insert("p/Derived()V"); }
        int first = choose(7);
        auto q = [&](int c, const char* s) {
            bool want = known.count(std::string(cls[c]) + s) || !denied(w.rules, 0, "<init>", s, cls[c]);
            auto id = w.env->GetMethodID(w.jc[c], "<init>", s);
            MC_CHECK((bool)id == want, "constructor", "%s%s: %s, expected %s", cls[c], s, id ? "found" : "null", want ? "found" : "null");
            if(want) known.insert(std::string(cls[c]) + s);
            mc::transition();
        };
        if(first < 6) q(first / 2, first & 1 ? "()V" : "(I)V");
        if(!before) { add(w.vm, r, false); w.rules.push_back(r); }
        for(int c = 0; c < 3; ++c) { q(c, "()V"); q(c, "(I)V"); }
        mc::state(mc::mix(first * 4 + hook, rc * 100 + rs * 10 + rn));
    }
    // Many rules
    void many() {
        int n = chooseSize(mc::bound(1025, 257, 4097, 1025)), pos = choose(3), kind = choose(3), wild = choose(3);
        Baron::Jvm vm;
        FakeJni::LocalFrame frame(vm);
        JNIEnv* env = &frame.getJniEnv();
        auto c = env->FindClass("p/A");
        int special = pos == 0 ? 0 : pos == 1 ? n / 2 : n - 1;
        for(int i = 0; i < n; ++i) {
            std::string x = std::to_string(i);
            if(kind == 2) vm.denyClass(("p/R" + x).data());
            else {
                auto deny = [&](const char* a, const char* b, const char* c) { if(kind) vm.denyField(a, b, c); else vm.denyMethod(a, b, c); };
                const char* sg = kind ? "I" : "()V";
                // Rules of one name, or one rule of each name
                if(wild == 0) deny(("n" + x).data(), sg, "p/A");
                else if(wild == 1) deny("n", sg, ("p/C" + x).data());
                else deny(i == special ? "" : ("n" + x).data(), i == special ? (kind ? "J" : "()J") : sg, "");
            }
        }
        for(int i : {0, n / 2, n - 1, n, n + 1}) {
            if(i < 0) continue;
            std::string x = std::to_string(i);
            const char* sg = kind ? "I" : "()V";
            if(kind == 2) {
                MC_CHECK((bool)env->FindClass(("p/R" + x).data()) == (i >= n), "class", "rule %d of %d", i, n);
                MC_CHECK(env->FindClass(("p/S" + x).data()), "class", "other than the %d rules", n);
            } else if(wild == 0) {
                MC_CHECK((bool)member(env, kind, false, c, ("n" + x).data(), sg) == (i >= n), "member", "rule %d of %d", i, n);
                MC_CHECK(member(env, kind, false, env->FindClass("p/B"), ("n" + x).data(), sg), "member", "of another class, rule %d of %d", i, n);
            } else if(wild == 1) {
                MC_CHECK((bool)member(env, kind, true, env->FindClass(("p/C" + x).data()), "n", sg) == (i >= n), "member", "rule %d of %d", i, n);
            } else {
                bool w = n > 0;
                MC_CHECK((bool)member(env, kind, true, c, ("n" + x).data(), sg) == (i >= n || i == special), "member", "rule %d of %d, special %d", i, n, special);
                MC_CHECK((bool)member(env, kind, true, c, ("n" + x).data(), kind ? "J" : "()J") == !w, "member", "by signature, rule %d of %d", i, n);
            }
            mc::transition();
        }
        mc::state(mc::mix(n * 3 + pos, kind * 3 + wild));
    }
    int init = [] {
        mc::scenario("rules", rules, 3);
        mc::scenario("classes", classRules, 3);
        mc::scenario("histories", histories, 3);
        mc::scenario("constructors", constructors, 3);
        mc::scenario("many", many, 2);
        return 0;
    }();
}
