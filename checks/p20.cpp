// P20: concurrent lookups agree on one class and one member
#include "../mc/sched/conc.hpp"
#include <sstream>
using namespace ch;

namespace {
    enum { FIND, NESTED, NESTED2, SIBLING, ARRAYCLASS, METHOD, SMETHOD, FIELD, SFIELD, DERIVED, NEWARRAY, NEWINTS, CALLOBJ, CALLARR, CTOR, METHOD2, REFLECT, SUPER, OPS };
    const char* opname[] = { "FindClass a/B", "FindClass a/B$C", "FindClass a/B$D", "FindClass a/c/E", "FindClass [La/B;", "GetMethodID m", "GetStaticMethodID m",
        "GetFieldID f", "GetStaticFieldID f", "GetMethodID of the derived class", "NewObjectArray of a/B", "NewIntArray", "CallObjectMethod of an object", "CallObjectMethod of an array",
        "GetMethodID <init>", "GetMethodID n mentioning a/B", "getMethod of the class", "GetSuperclass and IsAssignableFrom" };
    struct Base : Extends<> {};
    struct Derived : Extends<Base> {};
    const char* SIG = "(La/B;La/B$C;)La/F;";

    // What a lookup found: the identity of a class or member
    struct Found { const void* a = nullptr; const void* b = nullptr; };

    struct World {
        std::unique_ptr<VM> vm;
        JavaVM* jvm;
        jclass X, D;
        jmethodID obj, arr;
        bool strict;
        World(bool strict) : vm(strict ? new VM(false, true) : new VM()), jvm(vm->GetJavaVM()), strict(strict) {
            auto env = vm->GetJNIEnv();
            auto e = E(env);
            auto base = e->GetClass<Base>("x/Base");
            auto d = e->GetClass<Derived>("x/Derived");
            X = (jclass)base.get();
            D = (jclass)d.get();
            if(strict) {
                // The same names exist before the threads look for them
                e->GetClass("a/B$C");
                e->GetClass("a/c/E");
                base->Hook(e, "s", [](Class*) -> jint { return 1; });
                base->HookInstance(e, "i", [](Base*) -> jint { return 2; });
            }
            obj = (jmethodID)nullptr;
            if(!strict) {
                obj = env->GetMethodID(X, "makeobj", "()La/G;");
                arr = env->GetMethodID(X, "makearr", "()[La/H;");
            }
        }
        static const void* cls(JNIEnv* env, jobject c) { return c ? unwrap<Class>(env, c).get() : nullptr; }
        Found run(JNIEnv* env, int op) {
            Found r;
            switch(op) {
            case FIND: r.a = cls(env, env->FindClass("a/B")); break;
            case NESTED: r.a = cls(env, env->FindClass("a/B$C")); break;
            case NESTED2: r.a = cls(env, env->FindClass("a/B$D")); break;
            case SIBLING: r.a = cls(env, env->FindClass("a/c/E")); break;
            case ARRAYCLASS: r.a = cls(env, env->FindClass("[La/B;")); break;
            case METHOD: r.a = env->GetMethodID(X, strict ? "i" : "m", strict ? "()I" : SIG); break;
            case SMETHOD: r.a = env->GetStaticMethodID(X, strict ? "s" : "m", strict ? "()I" : SIG); break;
            case FIELD: r.a = env->GetFieldID(X, "f", "La/F;"); break;
            case SFIELD: r.a = env->GetStaticFieldID(X, "f", "La/F;"); break;
            case DERIVED: r.a = env->GetMethodID(D, strict ? "i" : "m", strict ? "()I" : SIG); r.b = env->GetFieldID(D, "f", "La/F;"); break;
            case NEWARRAY: {
                auto c = env->FindClass("a/B");
                if(!c) break;
                auto a = env->NewObjectArray(2, c, nullptr);
                SCHED_CHECK(a && env->GetArrayLength(a) == 2, "array", "NewObjectArray failed");
                r.a = cls(env, env->GetObjectClass(a));
                SCHED_CHECK(r.a, "array-class", "the array has no class");
                break;
            }
            case NEWINTS: {
                auto a = env->NewIntArray(3);
                SCHED_CHECK(a && env->GetArrayLength(a) == 3, "array", "NewIntArray failed");
                r.a = cls(env, env->GetObjectClass(a));
                SCHED_CHECK(r.a, "array-class", "the array has no class");
                break;
            }
            case CALLOBJ: case CALLARR: {
                if(strict) break;
                auto o = env->CallObjectMethod(local(env, std::make_shared<Base>()), op == CALLOBJ ? obj : arr);
                SCHED_CHECK(o, "default", "no default object");
                r.a = cls(env, env->GetObjectClass(o));
                SCHED_CHECK(r.a, "default-class", "the default object has no class");
                break;
            }
            case CTOR: r.a = env->GetMethodID(X, "<init>", "(La/I;)V"); break;
            case METHOD2: r.a = env->GetMethodID(D, "n", "([[La/B;I)V"); r.b = env->GetStaticMethodID(D, "n", "([La/B;I)V"); break;
            case REFLECT: {
                auto id = env->GetMethodID(X, strict ? "i" : "m", strict ? "()I" : SIG);
                auto o = env->ToReflectedMethod(X, id, false);
                SCHED_CHECK(o, "reflect", "ToReflectedMethod failed");
                r.a = env->FromReflectedMethod(o);
                SCHED_CHECK(r.a == id, "reflect", "another method comes back");
                break;
            }
            case SUPER:
                r.a = cls(env, env->GetSuperclass(D));
                SCHED_CHECK(r.a == cls(env, X), "superclass", "wrong superclass");
                SCHED_CHECK(env->IsAssignableFrom(D, X) && !env->IsAssignableFrom(X, D), "assignable", "wrong subtype relation");
                break;
            }
            return r;
        }
        // All that is declared, in no particular order
        static void tree(const Namespace& n, const std::string& prefix, std::vector<std::string>& r) {
            for(auto&& x : n.namespaces) { r.push_back("package " + prefix + x->name); tree(*x, prefix + x->name + "/", r); }
            for(auto&& x : n.classes) cls(*x, prefix + x->name, r);
        }
        static void cls(const Class& c, const std::string& name, std::vector<std::string>& r) {
            r.push_back("listed class " + name + " as " + c.nativeprefix);
            for(auto&& x : c.classes) cls(*x, name + "$" + x->name, r);
        }
        std::string declarations() {
            std::vector<std::string> r;
            tree(vm->np, "", r);
            for(auto&& c : vm->classes) {
                r.push_back("class " + c.first + " " + c.second->nativeprefix);
                for(auto&& m : c.second->methods) r.push_back("  " + c.first + (m->_static ? " static" : "") + " method " + m->name + m->signature);
                for(auto&& f : c.second->fields) r.push_back("  " + c.first + (f->_static ? " static" : "") + " field " + f->name + " " + f->type);
            }
            std::sort(r.begin(), r.end());
            std::string s;
            for(auto&& x : r) s += x + "\n";
            return s;
        }
    };
    typedef std::vector<int> Prog;

    void check(bool strict, const std::vector<Prog>& progs) {
        World w(strict);
        std::vector<std::vector<Found>> got(progs.size());
        std::vector<std::function<void()>> bodies;
        for(size_t t = 0; t < progs.size(); ++t) {
            got[t].reserve(8);
            bodies.push_back([&, t] {
                Attached a(w.jvm);
                for(auto op : progs[t]) {
                    log("%s", opname[op]);
                    got[t].push_back(w.run(a.env, op));
                }
            });
        }
        sched::parallel(bodies);
        auto env = w.vm->GetJNIEnv();
        for(size_t t = 0; t < progs.size(); ++t) {
            for(size_t i = 0; i < progs[t].size(); ++i) {
                auto f = w.run(env, progs[t][i]);
                // A strict VM knows the class of arrays of a/B once there is such an array
                if(strict && progs[t][i] == ARRAYCLASS && !got[t][i].a) continue;
                SCHED_CHECK(f.a == got[t][i].a && f.b == got[t][i].b, "disagree", "thread %d found another result for %s than is found later", (int)t + 1, opname[progs[t][i]]);
                if(!strict && progs[t][i] != SUPER) SCHED_CHECK(f.a, "missing", "%s found nothing", opname[progs[t][i]]);
            }
        }
        // The same operations one after another in a new VM, in some order, declare the same
        auto d = w.declarations();
        uint64_t key = 31 + strict;
        for(auto&& p : progs) for(auto op : p) key = key * 64 + op + 1;
        std::string other;
        auto all = [&] {
            std::vector<uint64_t> r;
            std::vector<size_t> pos(progs.size());
            std::vector<int> order;
            std::function<void()> go = [&] {
                bool end = true;
                for(size_t t = 0; t < progs.size(); ++t) {
                    if(pos[t] == progs[t].size()) continue;
                    end = false;
                    order.push_back(progs[t][pos[t]++]);
                    go();
                    pos[t]--;
                    order.pop_back();
                }
                if(!end) return;
                World s(strict);
                auto e = s.vm->GetJNIEnv();
                for(auto op : order) s.run(e, op);
                other = s.declarations();
                r.push_back(hash(other));
            };
            go();
            return r;
        };
        auto valid = sched::memo(key, all);
        if(!std::count(valid.begin(), valid.end(), hash(d))) {
            all();
            sched::fail("declarations", "the declarations are not those of any order of the operations:\n%sinstead of\n%s", d.c_str(), other.c_str());
        }
    }

    int init = [] {
        sched::scenario("pairs", [] {
            bool strict = choose(2);
            int a = choose(OPS), b = a + choose(OPS - a);
            check(strict, {{a}, {b}});
        }, 2, 3);
        sched::scenario("sequences", [] {
            bool strict = choose(2);
            int a = choose(OPS), b = choose(OPS);
            if(strict && (a >= NEWARRAY || b >= NEWARRAY) && !sched::thorough()) return;
            check(strict, {{a, b}, {b, a}});
        }, 1, 3);
        sched::scenario("three", [] {
            bool strict = choose(2);
            int a = choose(OPS);
            static const int others[] = { FIND, METHOD, FIELD, NEWARRAY };
            int b = sched::thorough() ? choose(OPS) : others[choose(4)];
            check(strict, {{a}, {b}, {a}});
        }, 1, 2);
        return 0;
    }();
}
