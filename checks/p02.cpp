// P02: global, weak and local handles of the same objects, every history to the bound
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    struct Tr : Tracked<> {};
    enum Kind { Loc, Glo, Wea };
    struct H { Kind k; int o; jobject h; };

    struct World {
        VM vm;
        JNIEnv* env;
        std::vector<std::weak_ptr<Tr>> objs;
        std::vector<H> hs;
        World() { env = vm.GetJNIEnv(); E(env)->GetClass<Tr>("Tr"); }

        bool live(int o) {
            for(auto& h : hs) if(h.o == o && h.k != Wea) return true;
            return false;
        }
        void create() {
            auto t = std::make_shared<Tr>();
            t->id = (int)objs.size();
            objs.push_back(t);
            hs.push_back({Loc, t->id, local(env, t)});
        }
        void make(int i, Kind k) {
            H s = hs[i];
            bool l = live(s.o);
            jobject r = k == Loc ? env->NewLocalRef(s.h) : k == Glo ? env->NewGlobalRef(s.h) : env->NewWeakGlobalRef(s.h);
            if(l) {
                MC_CHECK(r, "null-reference", "no reference made from a live one");
                hs.push_back({k, s.o, r});
            } else {
                MC_CHECK(!r, "zombie", "a reference was made from a cleared weak one");
            }
        }
        void del(int i) {
            H s = hs[i];
            hs.erase(hs.begin() + i);
            // A global or weak reference is an object of its own
            std::weak_ptr<Object> self;
            if(s.k != Loc) self = ((Object*)s.h)->weak_from_this();
            if(s.k == Loc) env->DeleteLocalRef(s.h);
            else if(s.k == Glo) env->DeleteGlobalRef(s.h);
            else env->DeleteWeakGlobalRef(s.h);
            MC_CHECK(self.expired(), "handle-kept", "the deleted handle %d is still held", i);
        }
        void check() {
            for(size_t i = 0; i < objs.size(); ++i) {
                bool want = live((int)i), is = !objs[i].expired();
                MC_CHECK(want == is, want ? "released-early" : "released-late", "object %zu is %s", i, is ? "alive without a strong reference" : "gone");
            }
            std::string st;
            for(size_t i = 0; i < hs.size(); ++i) {
                auto& h = hs[i];
                auto kind = env->GetObjectRefType(h.h);
                MC_CHECK(kind == (h.k == Loc ? JNILocalRefType : h.k == Glo ? JNIGlobalRefType : JNIWeakGlobalRefType), "ref-kind", "handle %zu of kind %d reports %d", i, h.k, (int)kind);
                auto o = unwrap<Tr>(env, h.h);
                bool l = live(h.o);
                MC_CHECK((bool)o == l, l ? "lost" : "zombie", "handle %zu", i);
                if(o) MC_CHECK(o->magic == Tr::ALIVE && o->id == h.o, "wrong-object", "handle %zu denotes object %d instead of %d", i, o->id, h.o);
                MC_CHECK((bool)env->IsSameObject(h.h, nullptr) == !l, "same-null", "handle %zu", i);
                MC_CHECK((bool)env->IsSameObject(nullptr, h.h) == !l, "same-null", "handle %zu", i);
                for(size_t j = 0; j < hs.size(); ++j) {
                    auto& g = hs[j];
                    bool same = l == live(g.o) && (!l || h.o == g.o);
                    MC_CHECK((bool)env->IsSameObject(h.h, g.h) == same, "same", "handles %zu and %zu", i, j);
                    if(i != j && h.k != Loc) MC_CHECK(h.h != g.h, "shared-handle", "handles %zu and %zu are one", i, j);
                }
                st += (char)('0' + h.k);
                st += (char)('a' + h.o);
            }
            MC_CHECK(!env->ExceptionCheck(), "exception", "unexpected exception");
            mc::state(st);
        }
    };

    void history(int depth, int maxobj, int maxh) {
        {
            World w;
            w.create();
            for(int d = 0; d < depth; ++d) {
                int n = (int)w.hs.size();
                int creates = (int)w.objs.size() < maxobj ? 1 : 0;
                // Handles of the same kind to the same object are interchangeable as a source
                std::vector<int> src;
                for(int i = 0; i < n; ++i) {
                    bool dup = false;
                    for(int j = 0; j < i; ++j) dup |= w.hs[j].k == w.hs[i].k && w.hs[j].o == w.hs[i].o;
                    if(!dup) src.push_back(i);
                }
                int makes = n < maxh ? (int)src.size() * 3 : 0;
                int c = choose(1 + makes + n + creates);
                if(c == 0) return;
                c--;
                if(c < makes) {
                    log("New%sRef of handle %d", c % 3 == 0 ? "Local" : c % 3 == 1 ? "Global" : "WeakGlobal", src[c / 3]);
                    w.make(src[c / 3], (Kind)(c % 3));
                } else if((c -= makes) < n) {
                    log("delete handle %d", c);
                    w.del(c);
                } else {
                    log("object %zu created", w.objs.size());
                    w.create();
                }
                mc::transition();
                w.check();
            }
        }
        MC_CHECK(Tr::alive() == 0, "released-late", "%d objects survive the VM", Tr::alive());
    }

    // Many handles: n of a kind, deleted in some order, the others stay valid
    void sweep(int max) {
        {
            World w;
            int n = chooseSize(max);
            Kind k = (Kind)choose(3);
            int mode = choose(3), order = choose(4), from = choose(3);
            log("%d references of kind %d mode %d order %d from %d", n, k, mode, order, from);
            w.create();
            if(from) w.make(0, from == 1 ? Glo : Wea);
            int src = from ? 1 : 0;
            for(int i = 0; i < n; ++i) {
                if(mode == 0 || i == 0) {
                    w.make(src, k);
                } else if(mode == 1) {
                    // Chain: each made out of the previous one
                    w.make((int)w.hs.size() - 1, k);
                } else {
                    w.create();
                    w.make((int)w.hs.size() - 1, k);
                }
                mc::transition();
            }
            if(n <= 70) w.check();
            while(!w.hs.empty()) {
                int m = (int)w.hs.size();
                w.del(order == 0 ? 0 : order == 1 ? m - 1 : order == 2 ? m / 2 : (m * 7) % m);
                mc::transition();
                if(m < 12 || m % 16 == 0) {
                    if(m < 140) w.check();
                }
            }
            w.check();
        }
        MC_CHECK(Tr::alive() == 0, "released-late", "%d objects survive the VM", Tr::alive());
    }

    // Every kind of object can be held by every kind of handle, is released by it, and acts as null afterwards
    void cleared() {
        VM vm;
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        auto tc = e->GetClass<Tr>("Tr");
        std::weak_ptr<Object> o;
        auto give = [&](auto p) { o = std::shared_ptr<Object>(p, p.get()); return local(env, p); };
        int type = choose(8);
        env->PushLocalFrame(0);
        jobject l = nullptr;
        switch(type) {
        case 0: { auto t = std::make_shared<Tr>(); t->id = 7; l = give(t); break; }
        case 1: l = env->NewStringUTF("hello"); break;
        case 2: l = env->NewIntArray(3); break;
        case 3: l = env->NewObjectArray(2, env->FindClass("java/lang/String"), nullptr); break;
        case 4: l = env->NewDirectByteBuffer(&type, 4); break;
        case 5: { auto t = std::make_shared<Throwable>(); t->except = std::make_exception_ptr(std::runtime_error("x")); l = give(t); break; }
        case 6: l = give(std::make_shared<Object>()); break;
        case 7: l = give(std::make_shared<Array<Tr>>(2)); break;
        }
        o = std::shared_ptr<Object>(unwrap<Object>(env, l));
        auto raw = (Object*)l;
        int hold = choose(3);
        auto g = hold == 1 ? env->NewGlobalRef(l) : hold == 2 ? env->NewGlobalRef(env->NewWeakGlobalRef(l)) : nullptr;
        auto w = env->NewWeakGlobalRef(l);
        auto w2 = choose(2) ? env->NewWeakGlobalRef(w) : env->NewWeakGlobalRef(g ? g : w);
        log("type %d hold %d", type, hold);
        env->PopLocalFrame(nullptr);
        mc::transition();
        MC_CHECK(o.expired() == !g, g ? "released-early" : "released-late", "popping the frame");
        if(g) {
            MC_CHECK(env->IsSameObject(g, w) && env->IsSameObject(w2, g), "same", "weak and global reference differ");
            MC_CHECK((void*)unwrap<Object>(env, g).get() == raw, "wrong-object", "another object");
            env->DeleteGlobalRef(g);
        }
        MC_CHECK(o.expired(), "released-late", "the last strong reference is deleted");
        mc::transition();
        // The cleared one acts as null in every operation which accepts null
        MC_CHECK(env->IsSameObject(w, nullptr) && env->IsSameObject(w, w2), "same-null", "a cleared reference is not null");
        MC_CHECK(!env->NewLocalRef(w) && !env->NewGlobalRef(w) && !env->NewWeakGlobalRef(w2), "zombie", "reference to a released object");
        MC_CHECK(env->GetObjectRefType(w) == JNIWeakGlobalRefType, "ref-kind", "kind of a cleared weak reference");
        MC_CHECK(!env->IsInstanceOf(w, env->FindClass("java/lang/Object")), "instance", "null is an instance");
        env->PushLocalFrame(4);
        MC_CHECK(!env->PopLocalFrame(w), "zombie", "popped frame with a cleared result");
        auto arr = env->NewObjectArray(2, env->FindClass("java/lang/Object"), w);
        MC_CHECK(!env->GetObjectArrayElement(arr, 0), "zombie", "cleared initial element");
        auto x = env->NewStringUTF("x");
        env->SetObjectArrayElement(arr, 1, x);
        env->SetObjectArrayElement(arr, 1, w);
        MC_CHECK(!env->GetObjectArrayElement(arr, 1), "zombie", "cleared array element");
        if(type == 1) {
            auto s = (jstring)w;
            MC_CHECK(env->GetStringLength(s) == 0 && env->GetStringUTFLength(s) == 0, "zombie", "string operations on a cleared reference");
        }
        if(type == 2) MC_CHECK(env->GetArrayLength((jarray)w) == 0 && !env->GetIntArrayElements((jintArray)w, nullptr), "zombie", "array operations on a cleared reference");
        if(type == 5) {
            env->Throw((jthrowable)w);
            MC_CHECK(!env->ExceptionCheck(), "zombie", "throwing null");
        }
        std::shared_ptr<Object> got = std::make_shared<Object>();
        tc->Hook(e, "take", [&](std::shared_ptr<Object> a) { got = a; });
        auto mid = env->GetStaticMethodID((jclass)(Object*)tc.get(), "take", "(Ljava/lang/Object;)V");
        env->CallStaticVoidMethod((jclass)(Object*)tc.get(), mid, w);
        MC_CHECK(!got && !env->ExceptionCheck(), "zombie", "cleared argument");
        std::weak_ptr<Object> self = ((Object*)w)->weak_from_this(), self2 = ((Object*)w2)->weak_from_this();
        env->DeleteWeakGlobalRef(w);
        env->DeleteWeakGlobalRef(w2);
        MC_CHECK(self.expired() && self2.expired(), "handle-kept", "a deleted weak reference is still held");
        MC_CHECK(!env->ExceptionCheck(), "exception", "unexpected exception");
    }

    // Two objects of every kind, equal in everything but identity, in handles of all kinds
    void kinds() {
        VM vm;
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        auto tc = e->GetClass<Tr>("Tr");
        tc->Hook(e, "a", [](ENV*, Class*) {});
        tc->Hook(e, "b", [](ENV*, Class*) {});
        auto c = env->FindClass("Tr");
        constexpr int TYPES = 18;
        auto give = [&](auto p) -> jobject { return local(env, p); };
        auto make = [&](int type, int n) -> jobject {
            switch(type) {
            case 0: return give(std::make_shared<Tr>());
            case 1: return env->NewStringUTF("hello");
            case 2: return env->NewStringUTF("");
            case 3: return env->NewIntArray(3);
            case 4: return env->NewIntArray(0);
            case 5: return env->NewObjectArray(2, c, nullptr);
            case 6: return env->NewDirectByteBuffer(&vm, 4);
            case 7: { auto t = std::make_shared<Throwable>(); t->except = std::make_exception_ptr(std::runtime_error("x")); return give(t); }
            case 8: return give(std::make_shared<Object>());
            case 9: return give(std::make_shared<Array<Tr>>(2));
            case 10: return env->FindClass(n ? "u/A" : "u/B");
            case 11: return env->FindClass(n ? "[I" : "[J");
            case 12: return env->FindClass(n ? "[Lu/A;" : "[Lu/B;");
            case 13: return env->FindClass(n ? "java/lang/String" : "java/lang/Class");
            case 14: return env->ToReflectedMethod(c, env->GetStaticMethodID(c, n ? "a" : "b", "()V"), true);
            case 15: return env->ToReflectedField(c, env->GetFieldID(c, n ? "a" : "b", "I"), false);
            case 16: return n ? (jobject)c : env->GetObjectClass(c);
            default: return env->NewBooleanArray(1);
            }
        };
        int type = choose(TYPES), other = choose(3) == 0 ? (type + 1) % TYPES : type;
        jobject o[2] = { make(type, 0), make(other, 1) };
        MC_CHECK(o[0] && o[1], "setup", "no object");
        std::shared_ptr<Object> p[2] = { unwrap<Object>(env, o[0]), unwrap<Object>(env, o[1]) };
        MC_CHECK(p[0] && p[1] && p[0] != p[1], "setup", "one object");
        int k0 = choose(3), k1 = choose(3), from = choose(3);
        log("types %d and %d, kinds %d and %d made from %d", type, other, k0, k1, from);
        struct R { int o, kind; jobject h; };
        std::vector<R> rs = {{0, 0, o[0]}, {1, 0, o[1]}};
        auto ref = [&](int n, int kind, jobject h) {
            auto r = kind == 0 ? env->NewLocalRef(h) : kind == 1 ? env->NewGlobalRef(h) : env->NewWeakGlobalRef(h);
            MC_CHECK(r, "null-reference", "no reference made from a live one");
            rs.push_back({n, kind, r});
            mc::transition();
            return r;
        };
        for(int n = 0; n < 2; ++n) {
            auto src = ref(n, from, o[n]);
            auto r = ref(n, k0, src);
            ref(n, k1, r);
            ref(n, k1, r);
        }
        auto check = [&] {
            for(auto& r : rs) {
                auto kind = env->GetObjectRefType(r.h);
                MC_CHECK(kind == (r.kind == 0 ? JNILocalRefType : r.kind == 1 ? JNIGlobalRefType : JNIWeakGlobalRefType), "ref-kind", "a handle of kind %d reports %d", r.kind, (int)kind);
                MC_CHECK(unwrap<Object>(env, r.h) == p[r.o], "wrong-object", "a handle of kind %d", r.kind);
                for(auto& s : rs) {
                    MC_CHECK((bool)env->IsSameObject(r.h, s.h) == (r.o == s.o), "same", "handles of kinds %d and %d of %s", r.kind, s.kind, r.o == s.o ? "one object" : "two objects");
                    if(&r != &s && r.kind) MC_CHECK(r.h != s.h, "shared-handle", "two references of kind %d are one", r.kind);
                }
                MC_CHECK(!env->IsSameObject(r.h, nullptr), "same-null", "a live reference is null");
                MC_CHECK(env->IsSameObject(env->GetObjectClass(r.h), env->GetObjectClass(o[r.o])), "class", "class of a handle of kind %d", r.kind);
            }
        };
        check();
        while(rs.size() > 2) {
            auto r = rs.back();
            rs.pop_back();
            std::weak_ptr<Object> self;
            if(r.kind) self = ((Object*)r.h)->weak_from_this();
            if(r.kind == 0) env->DeleteLocalRef(r.h); else if(r.kind == 1) env->DeleteGlobalRef(r.h); else env->DeleteWeakGlobalRef(r.h);
            MC_CHECK(!r.kind || self.expired(), "handle-kept", "a deleted handle of kind %d is still held", r.kind);
            mc::transition();
            check();
        }
        MC_CHECK(!env->ExceptionCheck(), "exception", "unexpected exception");
    }
}

static int init = [] {
    mc::scenario("history", [] { history(mc::bound(6, 5, 7, 6), 2, 5); }, 2);
    mc::scenario("one-object", [] { history(mc::bound(7, 6, 8, 7), 1, 4); }, 2);
    mc::scenario("many", [] { sweep(mc::bound(129, 33, 513, 129)); }, 2);
    mc::scenario("kinds", kinds, 2);
    mc::scenario("cleared", [] { cleared(); }, 1);
    return 0;
}();
