// P07: object arrays of a chain of classes, through every view, against a vector of object numbers
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    int aliveCount;
    struct T0 : Extends<> { int id = -1; uint64_t magic = 0x5afeull; T0() { aliveCount++; } ~T0() { aliveCount--; magic = 0; } };
    struct T1 : Extends<T0> {};
    struct T2 : Extends<T1> {};
    struct T3 : Extends<T2> {};
    struct U : Extends<> { int id = -1; uint64_t magic = 0x5afeull; U() { aliveCount++; } ~U() { aliveCount--; magic = 0; } };
    constexpr int NT = 6; // Object, T0, T1, T2, T3, U

    struct View {
        std::string name;
        bool isConst = false;
        std::function<void*(int)> get;
        std::function<bool(int)> has;
        // false if the static type forbids it
        std::function<bool(int, std::shared_ptr<Object>, int)> set;
    };
    struct Slot { int obj; };
    struct World;
    struct Obj { std::weak_ptr<Object> w; int type; void* raw; };

    struct World {
        VM vm;
        JNIEnv* env = vm.GetJNIEnv();
        std::shared_ptr<Class> cls[NT];
        std::vector<Obj> objs;
        std::shared_ptr<Object> arr;
        jobjectArray h = nullptr;
        std::vector<int> m;
        int elem = 0;
        std::vector<View> views;

        World() {
            auto e = E(env);
            cls[0] = e->GetClass("java/lang/Object");
            cls[1] = e->GetClass<T0>("q/T0");
            cls[2] = e->GetClass<T1>("q/T1");
            cls[3] = e->GetClass<T2>("q/T2");
            cls[4] = e->GetClass<T3>("q/T3");
            cls[5] = e->GetClass<U>("q/U");
        }
        static bool assignable(int t, int e) { return e == 0 || t == e || (t < 5 && e < 5 && t > e); }

        std::shared_ptr<Object> create(int t) {
            std::shared_ptr<Object> r;
            int id = (int)objs.size();
            auto mk = [&](auto p) { p->id = id; r = p; };
            switch(t) {
            case 0: r = std::make_shared<Object>(); break;
            case 1: mk(std::make_shared<T0>()); break;
            case 2: mk(std::make_shared<T1>()); break;
            case 3: mk(std::make_shared<T2>()); break;
            case 4: mk(std::make_shared<T3>()); break;
            case 5: mk(std::make_shared<U>()); break;
            }
            objs.push_back({r, t, r.get()});
            return r;
        }
        template<class T> static void* rawOf(T* p) { return p ? (void*)static_cast<Object*>(p) : nullptr; }
        template<class T> void own(std::shared_ptr<Array<T>> a) {
            arr = std::shared_ptr<Object>(a, a.get());
        }
        void jniView() {
            View v;
            v.name = "JNI";
            v.get = [this](int i) -> void* {
                env->PushLocalFrame(0);
                auto o = env->GetObjectArrayElement(h, i);
                auto r = unwrap<Object>(env, o).get();
                env->PopLocalFrame(nullptr);
                return r;
            };
            v.has = [this](int i) { env->PushLocalFrame(0); bool r = env->GetObjectArrayElement(h, i); env->PopLocalFrame(nullptr); return r; };
            v.set = [this](int i, std::shared_ptr<Object> o, int how) {
                env->PushLocalFrame(0);
                struct Pop { JNIEnv* e; ~Pop() { e->PopLocalFrame(nullptr); } } pop{env};
                jobject l = o ? local(env, o) : nullptr, g = how == 1 && l ? env->NewGlobalRef(l) : nullptr, w = how == 2 && l ? env->NewWeakGlobalRef(l) : nullptr;
                struct Del { JNIEnv* e; jobject g, w; ~Del() { if(g) e->DeleteGlobalRef(g); if(w) e->DeleteWeakGlobalRef(w); } } del{env, g, w};
                env->SetObjectArrayElement(h, i, g ? g : w ? w : l);
                return true;
            };
            views.push_back(v);
        }
        // Stores through the type the object was made as
        template<class T, class D> static bool derived(Array<T>& a, int i, const std::shared_ptr<Object>& o, int how) {
            if constexpr(std::is_base_of<T, D>::value && !std::is_same<T, D>::value) {
                if(!o || typeid(*o) != typeid(D)) return false;
                auto p = std::dynamic_pointer_cast<D>(o);
                if(how == 3) a[i] = p;
                else if(how == 4) a[i] = p.get();
                else a[i] = *p;
                return true;
            }
            return false;
        }
        template<class T> void typed(const char* name, Array<T>* a) {
            View v;
            v.name = name;
            v.get = [a](int i) -> void* {
                std::shared_ptr<T> p = (*a)[i];
                T* q = (*a)[i];
                MC_CHECK(p.get() == q, "conversion", "pointer and shared pointer differ");
                if(q) MC_CHECK(&*(*a)[i] == q && (*a)[i].operator->() == q, "conversion", "dereferencing differs");
                return rawOf(q);
            };
            v.has = [a](int i) { return (bool)(*a)[i]; };
            v.set = [a](int i, std::shared_ptr<Object> o, int how) {
                auto p = std::dynamic_pointer_cast<T>(o);
                if(o && !p) return false;
                if(how >= 3) return derived<T, T0>(*a, i, o, how) || derived<T, T1>(*a, i, o, how) || derived<T, T2>(*a, i, o, how) || derived<T, T3>(*a, i, o, how) || derived<T, U>(*a, i, o, how);
                if(how == 0) (*a)[i] = p;
                else if(how == 1) (*a)[i] = p.get();
                else { if(!p) return false; (*a)[i] = *p; }
                return true;
            };
            views.push_back(v);
        }
        template<class T> void typedConst(const char* name, const Array<T>* a) {
            View v;
            v.name = name;
            v.isConst = true;
            v.get = [a](int i) -> void* {
                std::shared_ptr<T> p = (*a)[i];
                T* q = (*a)[i];
                MC_CHECK(p.get() == q, "conversion", "pointer and shared pointer differ");
                return rawOf(q);
            };
            v.has = [a](int i) { return (bool)(*a)[i]; };
            views.push_back(v);
        }
        template<class T> void tryView(const char* name) {
            auto a = dynamic_cast<Array<T>*>(arr.get());
            if(!a) return;
            typed<T>(name, a);
            typedConst<T>((std::string("const ") + name).data(), a);
        }
        // how: 0 C++ array, 1 NewObjectArray knowing the native element type, 2 NewObjectArray without it
        void make(int type, int how, int n, int init) {
            elem = type;
            std::shared_ptr<Object> in = init >= 0 ? create(init) : nullptr;
            m.assign(n, init >= 0 ? 0 : -1);
            auto e = E(env);
            if(how == 1) {
                switch(type) {
                case 0: JNITypes<Array<Object>>::GetJNISignature(e); break;
                case 1: JNITypes<Array<T0>>::GetJNISignature(e); break;
                case 2: JNITypes<Array<T1>>::GetJNISignature(e); break;
                case 3: JNITypes<Array<T2>>::GetJNISignature(e); break;
                case 4: JNITypes<Array<T3>>::GetJNISignature(e); break;
                case 5: JNITypes<Array<U>>::GetJNISignature(e); break;
                }
            }
            if(how) {
                env->PushLocalFrame(0);
                h = env->NewObjectArray(n, (jclass)(Object*)cls[type].get(), in ? local(env, in) : nullptr);
                h = (jobjectArray)env->PopLocalFrame(h);
                MC_CHECK(h, "null-reference", "no array");
                arr = unwrap<Object>(env, h);
                auto c = unwrap<Class>(env, env->GetObjectClass(h));
                MC_CHECK(c && c->getName() == "[L" + cls[type]->getName() + ";", "class", "class of the array");
                if(how == 2) elem = 0;
            } else {
                switch(type) {
                case 0: own<Object>(std::make_shared<Array<Object>>(n)); break;
                case 1: own<T0>(std::make_shared<Array<T0>>(n)); break;
                case 2: own<T1>(std::make_shared<Array<T1>>(n)); break;
                case 3: own<T2>(std::make_shared<Array<T2>>(n)); break;
                case 4: own<T3>(std::make_shared<Array<T3>>(n)); break;
                case 5: own<U>(std::make_shared<Array<U>>(n)); break;
                }
                h = (jobjectArray)local(env, arr);
                m.assign(n, -1);
                in = nullptr;
            }
            in = nullptr;
            jniView();
            tryView<Object>("Array<Object>");
            tryView<T0>("Array<T0>");
            tryView<T1>("Array<T1>");
            tryView<T2>("Array<T2>");
            tryView<T3>("Array<T3>");
            tryView<U>("Array<U>");
            size_t want = 1 + 2 * (elem == 0 ? 1 : elem == 5 ? 2 : elem + 1);
            MC_CHECK(views.size() == want, "views", "%zu instead of %zu views", views.size(), want);
            MC_CHECK(env->GetArrayLength(h) == n, "length", "length %d", env->GetArrayLength(h));
            mc::transition();
        }
        bool stored(int o) { return std::find(m.begin(), m.end(), o) != m.end(); }
        void verify(bool all = true) {
            for(size_t i = 0; i < m.size(); ++i) {
                if(!all && i > 2 && i + 3 < m.size() && i != m.size() / 2) continue;
                void* want = m[i] < 0 ? nullptr : objs[m[i]].raw;
                for(auto& v : views) {
                    MC_CHECK(v.get((int)i) == want, m[i] < 0 ? "not-null" : "wrong-object", "element %zu read through %s", i, v.name.data());
                    MC_CHECK(v.has((int)i) == (bool)want, "has", "element %zu tested through %s", i, v.name.data());
                }
            }
            for(size_t o = 0; o < objs.size(); ++o) {
                bool want = stored((int)o), is = !objs[o].w.expired();
                MC_CHECK(want == is, want ? "released-early" : "released-late", "object %zu", o);
            }
            MC_CHECK(!env->ExceptionCheck(), "exception", "exception");
            std::string st;
            for(int x : m) st += x < 0 ? '-' : (char)('0' + objs[x].type);
            mc::state(st + (char)('A' + elem));
        }
        // Store through a view, in one of its ways
        void store(int v, int i, std::shared_ptr<Object> o, int id, int how) {
            bool fits = !o || assignable(objs[id].type, elem);
            bool ok = true, done = false;
            try { done = views[v].set(i, o, how); } catch(const std::exception&) { ok = false; }
            if(env->ExceptionCheck()) { ok = false; env->ExceptionClear(); }
            if(ok && !done) return;
            MC_CHECK(ok == fits, fits ? "rejected" : "accepted", "storing an object of type %d through %s into an array of type %d", o ? objs[id].type : -1, views[v].name.data(), elem);
            if(ok) m[i] = o ? id : -1;
            o = nullptr;
            mc::transition();
        }
    };

    void history(int depth, int maxn, bool wide) {
        aliveCount = 0;
        {
            World w;
            int type = choose(NT), how = choose(3), n = 1 + choose(maxn);
            int init = how ? choose(3) : 0;
            log("array of type %d, made by %d, length %d, init %d", type, how, n, init);
            int t = init == 0 ? -1 : init == 1 ? type : type >= 1 && type < 4 ? type + 1 : type;
            w.make(type, how, n, t);
            w.verify();
            for(int d = 0; d < depth; ++d) {
                std::vector<int> wr;
                for(size_t i = 0; i < w.views.size(); ++i) if(!w.views[i].isConst) wr.push_back((int)i);
                int v = wr[choose((int)wr.size())], i = choose(n), how = v == 0 ? wide ? choose(3) : 0 : choose(wide ? 6 : 3);
                int what = choose(NT + 2);
                if(what == 0) {
                    log("store null at %d through %s", i, w.views[v].name.data());
                    w.store(v, i, nullptr, -1, how);
                } else if(what == 1) {
                    // Move what another slot holds
                    int j = choose(n);
                    if(w.m[j] < 0) continue;
                    log("store element %d at %d through %s", j, i, w.views[v].name.data());
                    w.store(v, i, w.objs[w.m[j]].w.lock(), w.m[j], how);
                } else {
                    log("store a new object of type %d at %d through %s (%d)", what - 2, i, w.views[v].name.data(), how);
                    auto o = w.create(what - 2);
                    w.store(v, i, std::move(o), (int)w.objs.size() - 1, how);
                }
                w.verify();
            }
        }
        MC_CHECK(aliveCount == 0, "released-late", "%d objects survive the VM", aliveCount);
    }
    // Long arrays: fill, replace, clear, through all views
    void lengths(int max) {
        aliveCount = 0;
        {
            World w;
            int n = chooseSize(max), type = choose(NT), how = choose(3), init = how ? choose(2) : 0;
            log("array of type %d, made by %d, length %d, init %d", type, how, n, init);
            w.make(type, how, n, init ? type : -1);
            w.verify(n <= 70);
            int nv = (int)w.views.size();
            for(int i = 0; i < n; ++i) {
                if(i % 3 == 2 && n > 4) continue;
                int v = 0;
                for(int k = i; ; ++k) if(!w.views[v = k % nv].isConst) break;
                { auto o = w.create(type); w.store(v, i, std::move(o), (int)w.objs.size() - 1, v ? i % 3 : 0); }
            }
            w.verify(n <= 70);
            for(int i = 0; i < n; i += 2) w.store(0, i, nullptr, -1, 0);
            w.verify(n <= 70);
        }
        MC_CHECK(aliveCount == 0, "released-late", "%d objects survive the VM", aliveCount);
    }
    // Arrays within arrays
    void nested() {
        VM vm;
        auto env = vm.GetJNIEnv();
        auto e = E(env);
        e->GetClass<T0>("q/T0");
        int n = 1 + choose(2);
        bool prim = choose(2);
        std::shared_ptr<Array<Array<jint>>> ai;
        std::shared_ptr<Array<Array<T0>>> at;
        jobjectArray outer;
        int how = choose(2);
        if(how == 0) {
            if(prim) { ai = std::make_shared<Array<Array<jint>>>(n); outer = (jobjectArray)local(env, std::shared_ptr<Object>(ai)); }
            else { at = std::make_shared<Array<Array<T0>>>(n); outer = (jobjectArray)local(env, std::shared_ptr<Object>(at)); }
        } else {
            outer = env->NewObjectArray(n, env->FindClass(prim ? "[I" : "[Lq/T0;"), nullptr);
            MC_CHECK(unwrap<Class>(env, env->GetObjectClass(outer))->getName() == (prim ? "[[I" : "[[Lq/T0;"), "class", "class of the nested array");
        }
        MC_CHECK(env->GetArrayLength(outer) == n, "length", "length");
        for(int i = 0; i < n; ++i) {
            MC_CHECK(!env->GetObjectArrayElement(outer, i), "not-null", "element");
            jobject in;
            if(prim) in = env->NewIntArray(3 + i);
            else in = local(env, std::make_shared<Array<T0>>(3 + i));
            env->SetObjectArrayElement(outer, i, in);
            MC_CHECK(env->IsSameObject(env->GetObjectArrayElement(outer, i), in), "wrong-object", "inner array");
            MC_CHECK(env->GetArrayLength((jarray)env->GetObjectArrayElement(outer, i)) == 3 + i, "length", "inner length");
            if(how == 0 && prim) { std::shared_ptr<Array<jint>> p = (*ai)[i]; MC_CHECK(p && p->getSize() == 3 + i && (Object*)p.get() == (Object*)in, "wrong-object", "C++ inner array"); (*p)[1] = 9; jint x = 0; env->GetIntArrayRegion((jintArray)env->GetObjectArrayElement(outer, i), 1, 1, &x); MC_CHECK(x == 9, "wrong-object", "inner element"); }
            if(how == 0 && !prim) { std::shared_ptr<Array<T0>> p = (*at)[i]; MC_CHECK(p && p->getSize() == 3 + i && (Object*)p.get() == (Object*)in, "wrong-object", "C++ inner array"); (*p)[1] = std::make_shared<T0>(); MC_CHECK(env->GetObjectArrayElement((jobjectArray)in, 1), "wrong-object", "inner element"); }
            mc::transition();
            // The wrong kind of array is refused by a typed array
            if(how == 0) {
                jobject bad = prim ? (jobject)env->NewByteArray(1) : (jobject)env->NewIntArray(1);
                bool ok = true;
                try { env->SetObjectArrayElement(outer, i, bad); } catch(const std::exception&) { ok = false; }
                if(env->ExceptionCheck()) { ok = false; env->ExceptionClear(); }
                MC_CHECK(!ok, "accepted", "an array of another element type");
                MC_CHECK(env->IsSameObject(env->GetObjectArrayElement(outer, i), in), "wrong-object", "inner array changed");
            }
        }
    }
}

static int init = [] {
    mc::scenario("history", [] { history(mc::bound(2, 1, 3, 2), 2, false); }, 3);
    mc::scenario("conversions", [] { history(mc::bound(2, 1, 2, 1), 1, true); }, 3);
    mc::scenario("lengths", [] { lengths(mc::bound(1025, 129, 4097, 1025)); }, 2);
    mc::scenario("nested", nested, 1);
    return 0;
}();
