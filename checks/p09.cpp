// P09: member ids against a model of declared members, with hooks installed in between
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    struct B : Extends<> { jint f = 0; jlong g = 0; };
    struct D : Extends<B> { };
    struct U : Extends<> { };
    int sink;
    jint sf[8]; jlong sg[8];

    struct Member { void* id; bool ctor; int impl; };
    constexpr int NC = 3; // B, D : B, U
    const char* const CN[] = {"h/B", "h/D", "h/U"};

    template<class V> struct Open : V { using V::V; };
    struct World {
        std::unique_ptr<VM> v;
        std::unique_ptr<Open<Baron::Jvm>> b;
        VM* vm;
        bool strict;
        JNIEnv* env;
        ENV* e;
        std::shared_ptr<Class> cls[NC];
        std::shared_ptr<Object> obj[NC];
        // class, name, signature, static
        using Key = std::tuple<int, std::string, std::string, bool>;
        std::map<Key, Member> m;
        std::map<void*, Key> ids;
        int impls = 0;
        World(int kind) {
            strict = kind == 1;
            if(kind < 2) vm = (v = std::make_unique<VM>(false, strict)).get();
            else vm = (VM*)(b = std::make_unique<Open<Baron::Jvm>>()).get();
            env = vm->GetJNIEnv();
            e = E(env);
            cls[0] = e->GetClass<B>(CN[0]);
            cls[1] = e->GetClass<D>(CN[1]);
            cls[2] = e->GetClass<U>(CN[2]);
            obj[0] = std::make_shared<B>();
            obj[1] = std::make_shared<D>();
            obj[2] = std::make_shared<U>();
            local(env, std::dynamic_pointer_cast<B>(obj[0]));
            local(env, std::dynamic_pointer_cast<D>(obj[1]));
            local(env, std::dynamic_pointer_cast<U>(obj[2]));
            for(int i = 0; i < NC; ++i) MC_CHECK(obj[i]->getClassInternal(e) == cls[i], "setup", "class of object %d", i);
        }
        jclass jc(int c) { return (jclass)(Object*)cls[c].get(); }
        jobject jo(int c) { return (jobject)obj[c].get(); }
        // Where a lookup in class c finds the member
        Member* find(int c, const std::string& n, const std::string& s, bool st) {
            auto i = m.find(Key(c, n, s, st));
            if(i != m.end()) return &i->second;
            if(c == 1 && (n != "<init>" || s[0] != '(')) {
                i = m.find(Key(0, n, s, st));
                if(i != m.end()) return &i->second;
            }
            return nullptr;
        }
        void learn(const Key& k, void* id) {
            auto& x = m[k];
            if(!x.id) x.id = id;
            MC_CHECK(x.id == id, "unstable", "%s.%s%s has another id", CN[std::get<0>(k)], std::get<1>(k).data(), std::get<2>(k).data());
            auto i = ids.emplace(id, k);
            MC_CHECK(i.first->second == k, "alias", "%s.%s%s has the id of another member", CN[std::get<0>(k)], std::get<1>(k).data(), std::get<2>(k).data());
        }
        void* rawLookup(bool field, int c, const std::string& n, const std::string& s, bool st, bool peek = false) {
            static const JNINativeInterface P = VM::GetNativeInterfaceTemplate<true>();
            auto f = peek ? &P : env->functions;
            if(field) return st ? (void*)f->GetStaticFieldID(env, jc(c), n.data(), s.data()) : (void*)f->GetFieldID(env, jc(c), n.data(), s.data());
            return st ? (void*)f->GetStaticMethodID(env, jc(c), n.data(), s.data()) : (void*)f->GetMethodID(env, jc(c), n.data(), s.data());
        }
        void lookup(bool field, int c, const std::string& n, const std::string& s, bool st, bool peek = false) {
            auto k = find(c, n, s, st);
            auto id = rawLookup(field, c, n, s, st, peek);
            MC_CHECK(!env->ExceptionCheck(), "exception", "exception");
            if(k) {
                MC_CHECK(id, "lost", "%s.%s%s is not found", CN[c], n.data(), s.data());
                if(!k->id) {
                    // Implemented before it was looked up for the first time
                    for(auto& x : m) if(&x.second == k) learn(x.first, id);
                }
                MC_CHECK(k->id == id, "unstable", "%s.%s%s has another id", CN[c], n.data(), s.data());
            } else if(strict || peek) {
                MC_CHECK(!id, "declared", "%s.%s%s is found", CN[c], n.data(), s.data());
            } else {
                MC_CHECK(id, "lost", "%s.%s%s yields null", CN[c], n.data(), s.data());
                learn(Key(c, n, s, st), id);
            }
            if(!peek) mc::transition();
        }
        // Total number of members declared, to notice hidden declarations
        void count(bool field) {
            size_t n[NC] = {};
            for(auto& x : m) n[std::get<0>(x.first)]++;
            for(int c = 0; c < NC; ++c) {
                size_t have = field ? cls[c]->fields.size() : cls[c]->methods.size();
                MC_CHECK(have == n[c], have > n[c] ? "declared" : "lost", "%s has %zu instead of %zu members", CN[c], have, n[c]);
            }
        }
        std::string canon() {
            std::string r = strict ? "s" : "p";
            for(auto& x : m) r += std::to_string(std::get<0>(x.first)) + std::get<1>(x.first) + std::get<2>(x.first) + (std::get<3>(x.first) ? "S" : "I") + (x.second.id ? "d" : "-") + (x.second.impl ? "i" : "-");
            return r;
        }
        void reflect(bool field, int c, void* id, bool st) {
            env->PushLocalFrame(0);
            auto f = env->functions;
            jobject o = field ? f->ToReflectedField(env, jc(c), (jfieldID)id, st) : f->ToReflectedMethod(env, jc(c), (jmethodID)id, st);
            MC_CHECK(o, "reflect", "no reflected object");
            MC_CHECK(unwrap<Class>(env, env->GetObjectClass(o))->getName() == (field ? "java/lang/reflect/Field" : "java/lang/reflect/Method"), "reflect", "class of the reflected object");
            void* back = field ? (void*)f->FromReflectedField(env, o) : (void*)f->FromReflectedMethod(env, o);
            MC_CHECK(back == id, "reflect", "the reflected object yields another id");
            auto g = env->NewGlobalRef(o);
            back = field ? (void*)f->FromReflectedField(env, g) : (void*)f->FromReflectedMethod(env, g);
            MC_CHECK(back == id, "reflect", "a global reference to the reflected object yields another id");
            env->DeleteGlobalRef(g);
            MC_CHECK(!(field ? (void*)f->FromReflectedMethod(env, o) : (void*)f->FromReflectedField(env, o)), "reflect", "method and field mixed up");
            env->PopLocalFrame(nullptr);
        }
    };

    struct MSig { const char* n; const char* s; bool st; };
    const MSig MS[] = {{"m", "()V", false}, {"m", "(I)V", false}, {"m", "()V", true}, {"n", "()V", false}, {"n", "(I)V", true}, {"<init>", "()V", false}, {"<init>", "(I)V", false}};
    constexpr int NM = 7;
    int ran;
    template<class T> void hookMethod(World& w, int c, int k, int impl) {
        auto cl = w.cls[c].get();
        auto e = w.e;
        switch(k) {
        case 0: cl->HookInstanceFunction(e, "m", [impl]() { ran = impl; }); break;
        case 1: cl->HookInstanceFunction(e, "m", [impl](jint) { ran = impl; }); break;
        case 2: cl->Hook(e, "m", [impl]() { ran = impl; }); break;
        case 3: cl->HookInstanceFunction(e, "n", [impl]() { ran = impl; }); break;
        case 4: cl->Hook(e, "n", [impl](jint) { ran = impl; }); break;
        case 5: cl->Hook(e, "<init>", [impl]() { ran = impl; return std::make_shared<T>(); }); break;
        case 6: cl->Hook(e, "<init>", [impl](jint) { ran = impl; return std::make_shared<T>(); }); break;
        }
    }
    void checkMethods(World& w) {
        for(int c = 0; c < NC; ++c) for(int k = 0; k < NM; ++k) w.lookup(false, c, MS[k].n, MS[k].s, MS[k].st, true);
        w.count(false);
        // Every id ever obtained runs the latest implementation
        for(auto& x : w.m) {
            if(!x.second.id) continue;
            w.env->PushLocalFrame(0);
            int c = std::get<0>(x.first);
            auto& n = std::get<1>(x.first);
            bool st = std::get<3>(x.first);
            jvalue a[1] = {};
            jmethodID id = (jmethodID)x.second.id;
            if(n == "<init>") {
                ran = 0;
                auto o = w.env->NewObjectA(w.jc(c), id, a);
                MC_CHECK(ran == x.second.impl, "behaviour", "the constructor of %s ran %d instead of %d", CN[c], ran, x.second.impl);
                if(x.second.impl) MC_CHECK(o && unwrap<Class>(w.env, w.env->GetObjectClass(o)) == w.cls[c], "behaviour", "constructed object");
                w.reflect(false, c, id, true);
            } else if(st) {
                ran = 0;
                w.env->CallStaticVoidMethodA(w.jc(c), id, a);
                MC_CHECK(ran == x.second.impl, "behaviour", "%s.%s ran %d instead of %d", CN[c], n.data(), ran, x.second.impl);
                w.reflect(false, c, id, true);
                MC_CHECK(!w.env->functions->ToReflectedMethod(w.env, w.jc(c), id, JNI_FALSE), "reflect", "static-ness ignored");
            } else {
                for(int r = c; r < (c == 0 ? 2 : c + 1); ++r) {
                    int want = 0;
                    auto own = w.m.find(World::Key(r, n, std::get<2>(x.first), false));
                    if(own != w.m.end()) want = own->second.impl;
                    if(!want && r == 1) {
                        own = w.m.find(World::Key(0, n, std::get<2>(x.first), false));
                        if(own != w.m.end()) want = own->second.impl;
                    }
                    ran = 0;
                    w.env->CallVoidMethodA(w.jo(r), id, a);
                    MC_CHECK(ran == want, "behaviour", "%s.%s called on %s ran %d instead of %d", CN[c], n.data(), CN[r], ran, want);
                }
                w.reflect(false, c, id, false);
                MC_CHECK(!w.env->functions->ToReflectedMethod(w.env, w.jc(c), id, JNI_TRUE), "reflect", "static-ness ignored");
            }
            MC_CHECK(!w.env->ExceptionCheck(), "exception", "calling %s.%s", CN[c], n.data());
            w.env->PopLocalFrame(nullptr);
        }
        mc::state(w.canon());
    }
    void methods(int depth) {
        World w(choose(3));
        for(int d = 0; d < depth; ++d) {
            int op = choose(2), c = choose(NC), k = choose(NM);
            if(op == 0) {
                log("look up %s.%s%s%s", CN[c], MS[k].n, MS[k].s, MS[k].st ? " static" : "");
                w.lookup(false, c, MS[k].n, MS[k].s, MS[k].st);
            } else {
                log("hook %s.%s%s%s", CN[c], MS[k].n, MS[k].s, MS[k].st ? " static" : "");
                int impl = ++w.impls;
                if(c == 0) hookMethod<B>(w, c, k, impl);
                else if(c == 1) hookMethod<D>(w, c, k, impl);
                else hookMethod<U>(w, c, k, impl);
                w.m.emplace(World::Key(c, MS[k].n, MS[k].s, MS[k].st), Member{nullptr, false, 0}).first->second.impl = impl;
                mc::transition();
            }
            checkMethods(w);
        }
    }

    const MSig FS[] = {{"f", "I", false}, {"f", "J", false}, {"f", "I", true}, {"g", "J", false}, {"g", "J", true}};
    constexpr int NF = 5;
    void hookField(World& w, int c, int k) {
        auto cl = w.cls[c].get();
        auto e = w.e;
        switch(k) {
        case 0: if(c < 2) cl->HookInstance(e, "f", &B::f); else { cl->HookInstanceGetterFunction(e, "f", []() -> jint { return sf[4]; }); cl->HookInstanceSetterFunction(e, "f", [](jint v) { sf[4] = v; }); } break;
        case 1: cl->HookInstanceGetterFunction(e, "f", [c]() -> jlong { return sg[c]; }); cl->HookInstanceSetterFunction(e, "f", [c](jlong v) { sg[c] = v; }); break;
        case 2: cl->Hook(e, "f", &sf[c]); break;
        case 3: if(c < 2) cl->HookInstance(e, "g", &B::g); else { cl->HookInstanceGetterFunction(e, "g", []() -> jlong { return sg[3]; }); cl->HookInstanceSetterFunction(e, "g", [](jlong v) { sg[3] = v; }); } break;
        case 4: cl->Hook(e, "g", &sg[4 + c]); break;
        }
    }
    void checkFields(World& w) {
        for(int c = 0; c < NC; ++c) for(int k = 0; k < NF; ++k) w.lookup(true, c, FS[k].n, FS[k].s, FS[k].st, true);
        w.count(true);
        int v = 100;
        for(auto& x : w.m) {
            if(!x.second.id) continue;
            w.env->PushLocalFrame(0);
            int c = std::get<0>(x.first);
            bool st = std::get<3>(x.first), i = std::get<2>(x.first) == "I";
            auto id = (jfieldID)x.second.id;
            v++;
            for(int r = c; r < (c == 0 ? 2 : c + 1); ++r) {
                long got;
                if(st) { if(i) { w.env->SetStaticIntField(w.jc(r), id, v); got = w.env->GetStaticIntField(w.jc(r), id); } else { w.env->SetStaticLongField(w.jc(r), id, v); got = w.env->GetStaticLongField(w.jc(r), id); } }
                else { if(i) { w.env->SetIntField(w.jo(r), id, v); got = w.env->GetIntField(w.jo(r), id); } else { w.env->SetLongField(w.jo(r), id, v); got = w.env->GetLongField(w.jo(r), id); } }
                MC_CHECK(got == (x.second.impl ? v : 0), "behaviour", "%s.%s is %ld instead of %d", CN[c], std::get<1>(x.first).data(), got, x.second.impl ? v : 0);
            }
            w.reflect(true, c, id, st);
            MC_CHECK(!w.env->functions->ToReflectedField(w.env, w.jc(c), id, !st), "reflect", "static-ness ignored");
            w.env->PopLocalFrame(nullptr);
        }
        mc::state("F" + w.canon());
    }
    void fields(int depth) {
        World w(choose(3));
        for(int d = 0; d < depth; ++d) {
            int op = choose(2), c = choose(NC), k = choose(NF);
            if(op == 0) {
                log("look up field %s.%s %s%s", CN[c], FS[k].n, FS[k].s, FS[k].st ? " static" : "");
                w.lookup(true, c, FS[k].n, FS[k].s, FS[k].st);
            } else {
                log("hook field %s.%s %s%s", CN[c], FS[k].n, FS[k].s, FS[k].st ? " static" : "");
                hookField(w, c, k);
                w.m.emplace(World::Key(c, FS[k].n, FS[k].s, FS[k].st), Member{nullptr, false, 0}).first->second.impl = 1;
                mc::transition();
            }
            checkFields(w);
        }
    }
    // Names and signatures which are parts of each other are different members
    void similar() {
        static const char* const names[] = {"m", "mm", "M", "", "m ", "<init>", "<clinit>", "m$1", "toString"};
        static const char* const sigs[] = {"()V", "()I", "(I)V", "(II)V", "([I)V", "(Lh/B;)V", "(Lh/D;)V", "()Lh/B;", "([Lh/B;)V", "(J)V"};
        World w(choose(3));
        bool field = choose(2);
        static const char* const types[] = {"I", "J", "[I", "Lh/B;", "Lh/D;", "[Lh/B;", "[[I", "Z", "V", ""};
        auto q = [&](const char* what) {
            int n = choose(9), s = choose(10), st = choose(2);
            log("%s %s %s %d", what, names[n], field ? types[s] : sigs[s], st);
            return std::make_tuple(names[n], field ? types[s] : sigs[s], (bool)st);
        };
        auto a = q("first"), b = q("second");
        if(!field && ((std::string(std::get<0>(a)) == "<init>" && std::get<2>(a)) || (std::string(std::get<0>(b)) == "<init>" && std::get<2>(b)))) return;
        auto init = [](auto& x) { return std::string(std::get<0>(x)) == "<init>"; };
        // The result of a constructor is not part of its signature
        if(!field && init(a) && init(b)) return;
        int c = choose(NC);
        w.lookup(field, c, std::get<0>(a), std::get<1>(a), std::get<2>(a));
        w.count(field);
        w.lookup(field, 0, std::get<0>(b), std::get<1>(b), std::get<2>(b));
        w.count(field);
        w.lookup(field, 1, std::get<0>(a), std::get<1>(a), std::get<2>(a));
        w.lookup(field, c, std::get<0>(b), std::get<1>(b), std::get<2>(b));
        w.lookup(field, c, std::get<0>(a), std::get<1>(a), std::get<2>(a));
        w.count(field);
    }
    // Many members
    void sizesOf(int max) {
        World w(choose(2) ? 2 : 0);
        bool field = choose(2), st = choose(2);
        int n = chooseSize(max);
        log("%d %s %s", n, st ? "static" : "instance", field ? "fields" : "methods");
        auto sig = [&](int i) { return std::string(field ? (i % 2 ? "I" : "J") : i % 2 ? "()V" : "(I)V"); };
        for(int i = 0; i < n; ++i) w.lookup(field, i % 5 == 0 ? 0 : 1, "m" + std::to_string(i / 2), sig(i), st);
        for(int i = n; i--;) w.lookup(field, i % 5 == 0 ? 0 : 1, "m" + std::to_string(i / 2), sig(i), st);
        for(int i = 0; i < n; ++i) w.lookup(field, 1, "m" + std::to_string(i / 2), sig(i), st);
        for(int i = 0; i < n; ++i) w.lookup(field, 2, "m" + std::to_string(i / 2), sig(i), st, true);
        std::string ln(n, 'x');
        w.lookup(field, 0, ln + "1", sig(0), st);
        w.lookup(field, 0, ln + "2", sig(0), st);
        w.lookup(field, 0, "y" + ln, sig(0), st);
        w.lookup(field, 1, ln + "1", sig(0), st);
        w.count(field);
    }

    // Several bases: the first declared one first, each with all of its own bases
    namespace multi {
        struct A0 : Extends<> {}; struct A1 : Extends<> {}; struct A2 : Extends<A0, A1> {}; struct A3 : Extends<A2> {}; struct A4 : Extends<> {};
        struct B0 : Extends<> {}; struct B1 : Extends<B0> {}; struct B2 : Extends<B0> {}; struct B3 : Extends<B1, B2> {}; struct B4 : Extends<B3> {};
        struct C0 : Extends<> {}; struct C1 : Extends<> {}; struct C2 : Extends<> {}; struct C3 : Extends<C0, C1, C2> {}; struct C4 : Extends<C2, C1> {};
        struct D0 : Extends<> {}; struct D1 : Extends<D0> {}; struct D2 : Extends<> {}; struct D3 : Extends<D2> {}; struct D4 : Extends<D1, D3> {};
        struct E0 : Extends<> {}; struct E1 : Extends<Object, E0> {}; struct E2 : Extends<> {}; struct E3 : Extends<E2, E1> {}; struct E4 : Extends<E3, E0> {};
        // The last class is java/lang/Object
        constexpr int N = 6, O = 5;
        const std::vector<int> bases[5][N] = {
            {{O}, {O}, {0, 1}, {2}, {O}, {}}, {{O}, {0}, {0}, {1, 2}, {3}, {}}, {{O}, {O}, {O}, {0, 1, 2}, {2, 1}, {}}, {{O}, {0}, {O}, {2}, {1, 3}, {}}, {{O}, {O, 0}, {O}, {2, 1}, {3, 0}, {}}};
        template<class T0, class T1, class T2, class T3, class T4> void make(ENV* e, std::shared_ptr<Class>* c) {
            c[0] = e->GetClass<T0>("h/C0"); c[1] = e->GetClass<T1>("h/C1"); c[2] = e->GetClass<T2>("h/C2"); c[3] = e->GetClass<T3>("h/C3"); c[4] = e->GetClass<T4>("h/C4"); c[O] = e->GetClass("java/lang/Object");
        }
        jint values[N];
        int nearest(const std::vector<int>* b, int c, unsigned set) {
            if(set >> c & 1) return c;
            for(int i : b[c]) { int r = nearest(b, i, set); if(r >= 0) return r; }
            return -1;
        }
        void run() {
            int shape = choose(5), kind = choose(4);        // method, static method, field, static field
            unsigned set = (unsigned)choose(1 << N);
            bool hook = choose(2), strict = hook && choose(2);
            int first = choose(N);
            bool st = kind & 1, field = kind & 2;
            log("hierarchy %d, %s%s in classes %x %s, asked first in class %d of a %s VM", shape, st ? "static " : "", field ? "field" : "method", set, hook ? "hooked" : "looked up", first, strict ? "strict" : "permissive");
            VM vm(false, strict);
            auto env = vm.GetJNIEnv();
            auto e = E(env);
            std::shared_ptr<Class> c[N];
            switch(shape) {
            case 0: make<A0, A1, A2, A3, A4>(e, c); break;
            case 1: make<B0, B1, B2, B3, B4>(e, c); break;
            case 2: make<C0, C1, C2, C3, C4>(e, c); break;
            case 3: make<D0, D1, D2, D3, D4>(e, c); break;
            default: make<E0, E1, E2, E3, E4>(e, c);
            }
            static const JNINativeInterface P = VM::GetNativeInterfaceTemplate<true>();
            auto ask = [&](const JNINativeInterface* f, int i) -> void* {
                auto j = (jclass)(Object*)c[i].get();
                if(field) return st ? (void*)f->GetStaticFieldID(env, j, "x", "I") : (void*)f->GetFieldID(env, j, "x", "I");
                return st ? (void*)f->GetStaticMethodID(env, j, "x", "()I") : (void*)f->GetMethodID(env, j, "x", "()I");
            };
            void* id[N] = {};
            // The derived classes first: a later declaration in a base does not matter to them
            for(int k : {4, 3, 2, 1, 0, 5}) if(set >> k & 1) {
                int i = k;
                if(!hook) id[i] = ask(env->functions, i);
                else if(field && st) c[i]->Hook(e, "x", &values[i]);
                else if(field) { c[i]->HookInstanceGetterFunction(e, "x", [i]() -> jint { return values[i]; }); c[i]->HookInstanceSetterFunction(e, "x", [i](jint v) { values[i] = v; }); }
                else if(st) c[i]->Hook(e, "x", [i]() -> jint { return 100 + i; });
                else c[i]->HookInstanceFunction(e, "x", [i]() -> jint { return 100 + i; });
            }
            for(int k = 0; k < N; ++k) {
                int i = (first + k) % N, n = nearest(bases[shape], i, set);
                void* r = ask(&P, i);
                mc::transition();
                MC_CHECK((bool)r == (n >= 0), r ? "declared" : "lost", "class %d: %s", i, r ? "found" : "not found");
                if(r) {
                    if(!id[n]) id[n] = r;
                    MC_CHECK(id[n] == r, "base", "class %d does not find the member of class %d", i, n);
                    MC_CHECK(ask(env->functions, i) == r, "unstable", "class %d", i);
                }
            }
            for(int a = 0; a < N; ++a) for(int b = 0; b < a; ++b) MC_CHECK(!id[a] || id[a] != id[b], "alias", "classes %d and %d", a, b);
            if(hook) for(int i = 0; i < N; ++i) if(id[i]) {
                auto j = (jclass)(Object*)c[i].get();
                if(field && st) { env->SetStaticIntField(j, (jfieldID)id[i], 50 + i); MC_CHECK(values[i] == 50 + i, "behaviour", "field of class %d", i); }
                else if(st) { jint v = env->CallStaticIntMethod(j, (jmethodID)id[i]); MC_CHECK(v == 100 + i, "behaviour", "method of class %d gives %d", i, v); }
            }
            for(int i = 0; i < N; ++i) values[i] = 0;
            // A class without the member declares it for itself and the ones derived from it
            void* r = ask(env->functions, first);
            int n = nearest(bases[shape], first, set);
            if(n < 0) {
                MC_CHECK((bool)r == !strict, "declare", "class %d", first);
                if(r) {
                    set |= 1u << first;
                    for(int i = 0; i < N; ++i) {
                        int m = nearest(bases[shape], i, set);
                        void* x = ask(&P, i);
                        MC_CHECK((bool)x == (m >= 0) && (m < 0 || x == (m == first ? r : id[m])), "declare", "class %d after class %d declared it", i, first);
                    }
                }
            }
            mc::state(std::to_string(shape) + "b" + std::to_string(kind) + std::to_string(set) + (strict ? "s" : "p"));
        }
    }
}

static int init = [] {
    mc::scenario("methods", [] { methods(mc::bound(3, 2, 4, 3)); }, 3);
    mc::scenario("fields", [] { fields(mc::bound(3, 2, 4, 3)); }, 3);
    mc::scenario("similar", similar, 3);
    mc::scenario("bases", multi::run, 3);
    mc::scenario("sizes", [] { sizesOf(mc::bound(1025, 257, 4097, 1025)); }, 3);
    return 0;
}();
