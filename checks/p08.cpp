// P08: class lookup against a map from names to classes
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    struct T0 : Extends<> {};
    struct T1 : Extends<> {};
    const char* const NAMES[] = {"A", "A$B", "A$B$C", "p/A", "p/A$B", "p/q/A", "p", "q/A", "p$A", "[I", "[LA;", "[Lp/A;", "[[I"};
    constexpr int NN = sizeof(NAMES) / sizeof(*NAMES);
    // Member signatures and the classes they mention
    struct Sig { const char* sig; bool field; std::vector<const char*> names; };
    const Sig SIGS[] = {
        {"(LA$B;)V", false, {"A$B"}},
        {"([Lp/A;I)Lq/A;", false, {"p/A", "q/A"}},
        {"(JLA$B$C;[[DLp;)[Lp/q/A;", false, {"A$B$C", "p", "p/q/A"}},
        {"Lp/A$B;", true, {"p/A$B"}},
        {"[[Lp$A;", true, {"p$A"}},
        {"LA;", true, {"A"}},
        {"(ILILA$B;", false, {"ILA$B"}},
    };
    constexpr int NS = sizeof(SIGS) / sizeof(*SIGS);

    template<class V> struct Open : V {
        using V::V;
        VM& vm() { return *this; }
    };
    // One of the four kinds of VM
    struct Any {
        std::unique_ptr<VM> v;
        std::unique_ptr<Open<FakeJni::Jvm>> f;
        std::unique_ptr<Open<Baron::Jvm>> b;
        VM* vm;
        bool strict;
        Any(int kind) {
            strict = kind == 1 || kind == 2;
            if(kind < 2) vm = (v = std::make_unique<VM>(false, kind == 1)).get();
            else if(kind == 2) vm = (VM*)(f = std::make_unique<Open<FakeJni::Jvm>>()).get();
            else vm = (VM*)(b = std::make_unique<Open<Baron::Jvm>>()).get();
        }
        FakeJni::Jvm* jvm() { return f ? (FakeJni::Jvm*)f.get() : b ? (FakeJni::Jvm*)b.get() : nullptr; }
    };

    struct World {
        Any any;
        VM& vm = *any.vm;
        JNIEnv* env = vm.GetJNIEnv();
        ENV* e = E(env);
        std::map<std::string, Class*> m;
        std::map<std::string, Class*> bound;
        int initial;
        World(int kind) : any(kind) {
            for(auto& c : vm.classes) m[c.first] = c.second.get();
            initial = (int)m.size();
            for(auto n : {"java/lang/Object", "java/lang/Class", "java/lang/String", "java/lang/Throwable", "java/nio/ByteBuffer", "java/lang/reflect/Method", "java/lang/reflect/Field", "java/lang/ref/WeakReference"})
                MC_CHECK(m.count(n), "builtin", "%s is missing", n);
        }
        // Every outer class of a nested class is mentioned as well
        void mention(const std::string& n) {
            if(n[0] == '[') { m.emplace(n, nullptr); return; }
            size_t from = n.rfind('/');
            for(size_t p = n.find('$', from == std::string::npos ? 0 : from + 1); p != std::string::npos; p = n.find('$', p + 1))
                m.emplace(n.substr(0, p), nullptr);
            m.emplace(n, nullptr);
        }
        void learn(const std::string& n, Class* c) {
            auto& k = m[n];
            if(!k) k = c;
            MC_CHECK(k == c, "unstable", "%s was another class before", n.data());
        }
        // Lookup that never declares
        Class* peek(const std::string& n) {
            env->PushLocalFrame(0);
            auto c = unwrap<Class>(env, VM::GetNativeInterfaceTemplate<true>().FindClass(env, n.data())).get();
            env->PopLocalFrame(nullptr);
            return c;
        }
        void verify(const std::vector<std::string>& names) {
            std::set<Class*> seen;
            size_t before = vm.classes.size();
            for(auto& n : names) {
                auto c = peek(n);
                bool want = m.count(n);
                MC_CHECK((bool)c == want, want ? "lost" : "declared", "%s %s", n.data(), want ? "is not found" : "is found");
                if(c) {
                    learn(n, c);
                    MC_CHECK(c->getName() == n, "name", "%s is called %s", n.data(), c->getName().data());
                }
            }
            for(auto& c : m) {
                if(!c.second) c.second = peek(c.first);
                MC_CHECK(c.second, "lost", "%s is not found", c.first.data());
                MC_CHECK(seen.insert(c.second).second, "alias", "%s is the same class as another one", c.first.data());
            }
            MC_CHECK(vm.classes.size() == before, "declared", "a lookup without declaring declared a class");
            MC_CHECK(before == m.size(), before > m.size() ? "declared" : "lost", "%zu classes instead of %zu", before, m.size());
            for(auto& c : vm.classes) {
                auto i = m.find(c.first);
                MC_CHECK(i != m.end() && i->second == c.second.get(), "list", "%s in the list of classes", c.first.data());
            }
            if(auto j = any.jvm()) {
                auto l = j->getClasses();
                std::set<Class*> s;
                for(auto& c : l) s.insert(c.get());
                MC_CHECK(s == seen && l.size() == s.size(), "list", "getClasses");
            }
            for(auto& b : bound) {
                auto c = b.first == "T0" ? JNITypes<T0>::GetClass(e) : JNITypes<T1>::GetClass(e);
                MC_CHECK(c.get() == b.second, "bound", "the class of %s", b.first.data());
                auto o = b.first == "T0" ? local(env, std::make_shared<T0>()) : local(env, std::make_shared<T1>());
                MC_CHECK(unwrap<Class>(env, env->GetObjectClass(o)).get() == b.second, "bound", "the class of an object of %s", b.first.data());
                auto s = b.first == "T0" ? JNITypes<std::shared_ptr<T0>>::GetJNISignature(e) : JNITypes<std::shared_ptr<T1>>::GetJNISignature(e);
                MC_CHECK(s == "L" + b.second->getName() + ";", "bound", "signature %s", s.data());
                if(b.second->Instantiate) {
                    auto i = b.second->Instantiate(e);
                    MC_CHECK(b.first == "T0" ? (bool)std::dynamic_pointer_cast<T0>(i) : (bool)std::dynamic_pointer_cast<T1>(i), "bound", "instantiating %s", b.first.data());
                } else mc::fail("bound", "%s cannot be instantiated", b.first.data());
            }
            std::string st = any.strict ? "s" : "p";
            for(auto& c : m) st += c.first + ",";
            for(auto& b : bound) st += b.first + b.second->getName();
            mc::state(st);
        }
        void lookup(const std::string& n) {
            bool known = m.count(n);
            auto h = env->FindClass(n.data());
            auto c = unwrap<Class>(env, h).get();
            if(any.strict && !known) {
                MC_CHECK(!h, "declared", "strict lookup of %s", n.data());
            } else {
                MC_CHECK(c, "lost", "lookup of %s yields null", n.data());
                mention(n);
                learn(n, c);
                MC_CHECK(env->FindClass(n.data()) == h, "unstable", "%s twice", n.data());
            }
            MC_CHECK(!env->ExceptionCheck(), "exception", "lookup of %s", n.data());
            mc::transition();
        }
        void jvmLookup(const std::string& n) {
            bool known = m.count(n);
            auto c = any.jvm()->findClass(n.data());
            // FakeJni::Jvm looks classes up without declaring, Baron::Jvm declares
            if(any.f && !known) MC_CHECK(!c, "declared", "findClass %s", n.data());
            else {
                MC_CHECK(c, "lost", "findClass %s yields null", n.data());
                mention(n);
                learn(n, c.get());
            }
            mc::transition();
        }
        void declare(const std::string& n) {
            auto c = e->GetClass(n.data());
            MC_CHECK(c, "lost", "GetClass %s", n.data());
            mention(n);
            learn(n, c.get());
            mc::transition();
        }
        template<class T> void bind(const char* t, const std::string& n) {
            auto c = e->GetClass<T>(n.data());
            MC_CHECK(c, "lost", "registering %s", n.data());
            mention(n);
            learn(n, c.get());
            bound[t] = c.get();
            mc::transition();
        }
        void member(const Sig& s) {
            auto c = (jclass)(Object*)m["java/lang/Object"];
            void* id = s.field ? (void*)env->GetFieldID(c, "f", s.sig) : (void*)env->GetMethodID(c, "m", s.sig);
            MC_CHECK((bool)id == !any.strict, "member", "looking up %s", s.sig);
            if(!any.strict) for(auto n : s.names) mention(n);
            mc::transition();
        }
        void array(const std::string& n) {
            auto c = m.find(n);
            if(c == m.end()) return;
            auto a = env->NewObjectArray(1, (jclass)(Object*)c->second, nullptr);
            auto an = n[0] == '[' ? "[" + n : "[L" + n + ";";
            mention(an);
            learn(an, unwrap<Class>(env, env->GetObjectClass(a)).get());
            mc::transition();
        }
    };
    const std::vector<std::string>& universe() {
        static const std::vector<std::string> u(NAMES, NAMES + NN);
        return u;
    }

    void history(int depth) {
        int kind = choose(4);
        World w(kind);
        // Names of the native types, all three only in the permissive and the strict VM
        int shift = kind < 2 ? choose(2 + (kind == 0)) : kind - 1;
        const char* const natives[3][2] = {{"A$B", "p/A"}, {"A", "A$B$C"}, {"p/A$B", "[LA;"}};
        w.verify(universe());
        bool jvm = w.any.jvm();
        for(int d = 0; d < depth; ++d) {
            int op = choose(NN + 3 + 3 + NS + 4 + (jvm ? 4 : 0));
            if(op < NN) {
                log("FindClass %s", NAMES[op]);
                w.lookup(NAMES[op]);
            } else if((op -= NN) < 3) {
                auto n = NAMES[op == 0 ? 0 : op == 1 ? 4 : 10];
                log("GetClass %s", n);
                w.declare(n);
            } else if((op -= 3) < 3) {
                // The last name counts for a type registered twice
                auto n = op < 2 ? natives[shift][op] : "q/A";
                log("register native type %d as %s", op % 2, n);
                if(op % 2) w.bind<T1>("T1", n);
                else w.bind<T0>("T0", n);
            } else if((op -= 3) < NS) {
                log("member with signature %s", SIGS[op].sig);
                w.member(SIGS[op]);
            } else if((op -= NS) < 4) {
                auto n = op == 0 ? "A" : op == 1 ? "p/A" : op == 2 ? "[LA;" : "[I";
                if(op == 3 && !w.m.count("[I")) {
                    log("new int array");
                    auto a = w.env->NewIntArray(1);
                    w.mention("[I");
                    w.learn("[I", unwrap<Class>(w.env, w.env->GetObjectClass(a)).get());
                    mc::transition();
                } else {
                    log("new array of %s", n);
                    w.array(n);
                }
            } else {
                auto n = NAMES[op == 4 ? 0 : op == 5 ? 1 : op == 6 ? 3 : 10];
                log("findClass %s", n);
                w.jvmLookup(n);
            }
            w.verify(universe());
        }
    }
    // Every string over a small alphabet is a name of its own
    void strings(int maxlen) {
        World w(choose(2));
        std::string a, b;
        auto make = [&](int max) {
            std::string s;
            int n = 1 + choose(max);
            for(int i = 0; i < n; ++i) s += "Ab/$"[choose(4)];
            return s;
        };
        a = make(maxlen);
        b = make(maxlen);
        log("names %s and %s", a.data(), b.data());
        if(w.any.strict) {
            w.lookup(a);
            w.verify({a, b});
            w.declare(a);
            w.verify({a, b});
            w.lookup(b);
            w.declare(b);
        } else {
            w.lookup(a);
            w.verify({a, b});
            w.lookup(b);
        }
        w.verify({a, b});
        w.lookup(a);
        w.lookup(b);
        w.verify({a, b});
    }
    // Many classes next to each other, within each other, long names
    void sizesOf(int max) {
        World w(choose(4));
        int shape = choose(6), n = chooseSize(max);
        std::vector<std::string> names;
        std::string deep = "d";
        for(int i = 0; i < n; ++i) {
            switch(shape) {
            case 0: names.push_back("pkg/C" + std::to_string(i)); break;
            case 1: names.push_back("C$N" + std::to_string(i)); break;
            case 2: names.push_back("p" + std::to_string(i) + "/C"); break;
            case 3: deep += "/x"; if(i == n - 1 || i == n / 2) names.push_back(deep + "/C"); break;
            case 4: deep += "$x"; if(i == n - 1 || i == n / 2) names.push_back(deep); break;
            case 5: deep += "y"; if(i == n - 1 || i == n / 2) { names.push_back(deep); names.push_back("p/" + deep + "$" + deep); } break;
            }
        }
        log("shape %d, size %d", shape, n);
        std::vector<Class*> got;
        for(auto& s : names) {
            w.declare(s);
            w.lookup(s);
            got.push_back(w.m[s]);
        }
        w.verify(names);
        for(size_t i = 0; i < names.size(); ++i) {
            w.lookup(names[i]);
            MC_CHECK(w.m[names[i]] == got[i], "unstable", "%s", names[i].data());
        }
    }
}

static int init = [] {
    mc::scenario("history", [] { history(mc::bound(4, 3, 5, 4)); }, 3);
    mc::scenario("strings", [] { strings(mc::bound(4, 3, 5, 4)); }, 3);
    mc::scenario("sizes", [] { sizesOf(mc::bound(1025, 257, 4097, 1025)); }, 2);
    return 0;
}();
