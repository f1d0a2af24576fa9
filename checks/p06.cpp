// P06: primitive arrays of all eight types through all views, against a vector
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    template<class T> struct PA {
        using J = JT<T>;
        using JA = typename J::array;
        struct Arr {
            JA h;
            std::shared_ptr<Array<T>> cpp;
            std::vector<T> m;
            T* el = nullptr;
            T* crit = nullptr;
        };
        VM vm;
        JNIEnv* env = vm.GetJNIEnv();
        std::vector<Arr> as;
        int next = 0;

        T fresh() { return value<T>(next++); }
        void add(int n, int how) {
            Arr a;
            if(how == 0) {
                a.h = J::newArray(env, n);
                MC_CHECK(a.h, "null-reference", "no array of %d", n);
                a.cpp = unwrap<Array<T>>(env, a.h);
                a.m.assign(n, T{});
            } else if(how == 1) {
                std::vector<T> v;
                for(int i = 0; i < n; ++i) v.push_back(fresh());
                a.cpp = std::make_shared<Array<T>>(v);
                a.m = v;
                a.h = (JA)local(env, a.cpp);
            } else {
                std::unique_ptr<T[]> v(new T[n]);
                for(int i = 0; i < n; ++i) { v[i] = fresh(); a.m.push_back(v[i]); }
                a.cpp = std::make_shared<Array<T>>(v.get(), n);
                a.h = (JA)local(env, a.cpp);
            }
            as.push_back(a);
            mc::transition();
        }
        void check(Arr& a) {
            size_t n = a.m.size();
            MC_CHECK(env->GetArrayLength(a.h) == (jsize)n, "length", "length %d instead of %zu", env->GetArrayLength(a.h), n);
            MC_CHECK(a.cpp && a.cpp->getSize() == (jsize)n, "length", "C++ length");
            std::vector<T> buf(n + 2);
            memset((void*)buf.data(), 0x77, sizeof(T) * (n + 2));
            T guard = buf[0];
            J::getRegion(env, a.h, 0, (jsize)n, buf.data() + 1);
            MC_CHECK(same(buf[0], guard) && same(buf[n + 1], guard), "region-overrun", "reading wrote outside of the buffer");
            MC_CHECK(n == 0 || !memcmp(buf.data() + 1, a.m.data(), n * sizeof(T)), "region", "elements differ");
            MC_CHECK(n == 0 || !memcmp(a.cpp->getArray(), a.m.data(), n * sizeof(T)), "cpp", "the C++ view differs");
            if(a.el) MC_CHECK(n == 0 || !memcmp(a.el, a.m.data(), n * sizeof(T)), "elements", "the element pointer differs");
            if(a.crit) MC_CHECK(n == 0 || !memcmp(a.crit, a.m.data(), n * sizeof(T)), "critical", "the critical pointer differs");
            MC_CHECK(!env->ExceptionCheck(), "exception", "exception");
        }
        void set(Arr& a, int s, int n) {
            // Exactly sized source
            std::unique_ptr<T[]> v(new T[n]);
            for(int i = 0; i < n; ++i) { v[i] = fresh(); a.m[s + i] = v[i]; }
            J::setRegion(env, a.h, s, n, v.get());
        }
        void get(Arr& a, int s, int n) {
            std::vector<T> buf(n + 2);
            memset((void*)buf.data(), 0x66, sizeof(T) * (n + 2));
            T guard = buf[0];
            J::getRegion(env, a.h, s, n, buf.data() + 1);
            MC_CHECK(same(buf[0], guard) && same(buf[n + 1], guard), "region-overrun", "reading %d,%d wrote outside of the buffer", s, n);
            MC_CHECK(n == 0 || !memcmp(buf.data() + 1, a.m.data() + s, n * sizeof(T)), "region", "region %d,%d differs", s, n);
        }
        // One step; views stay outstanding until they are released
        void step() {
            Arr& a = as[choose((int)as.size())];
            int n = (int)a.m.size();
            int op = choose(n ? 8 : 3);
            switch(op) {
            case 0: if(a.el) { static const jint modes[] = {0, JNI_COMMIT, JNI_ABORT}; int m = choose(3); log("release elements %d", m); J::release(env, a.h, a.el, modes[m]); if(m != 1) a.el = nullptr; } else { jboolean c = 9; log("get elements"); a.el = J::elements(env, a.h, &c); MC_CHECK(a.el, "elements", "no elements"); MC_CHECK(c == JNI_FALSE, "copy", "isCopy is %d though the elements are the array's own", c); } break;
            case 1: if(a.crit) { static const jint modes[] = {0, JNI_COMMIT, JNI_ABORT}; int m = choose(3); log("release critical %d", m); env->ReleasePrimitiveArrayCritical(a.h, a.crit, modes[m]); if(m != 1) a.crit = nullptr; } else { log("get critical"); jboolean c = 9; a.crit = (T*)env->GetPrimitiveArrayCritical(a.h, &c); MC_CHECK(a.crit, "critical", "no elements"); MC_CHECK(c == JNI_FALSE, "copy", "isCopy is %d though the elements are the array's own", c); } break;
            case 2: { int s = choose(n + 1), l = choose(n - s + 1); log("read region %d,%d", s, l); get(a, s, l); break; }
            case 3: { int s = choose(n), l = choose(n - s + 1); log("write region %d,%d", s, l); set(a, s, l); break; }
            case 4: { int i = choose(n); log("C++ write %d", i); a.m[i] = fresh(); (*a.cpp)[i] = a.m[i]; break; }
            case 5: { if(a.el) { int i = choose(n); log("write element %d", i); a.m[i] = fresh(); a.el[i] = a.m[i]; } break; }
            case 6: { if(a.crit) { int i = choose(n); log("write critical %d", i); a.m[i] = fresh(); a.crit[i] = a.m[i]; } break; }
            case 7: { int i = choose(n); log("C++ read %d", i); const Array<T>& c = *a.cpp; MC_CHECK(same(c[i], a.m[i]) && same((*a.cpp)[i], a.m[i]), "cpp", "C++ element %d", i); break; }
            }
            mc::transition();
            for(auto& x : as) check(x);
        }
        void history(int depth) {
            int n = 1 + choose(3);
            n = n == 3 ? 0 : n;
            add(n, choose(3));
            add(2, 0);
            for(auto& x : as) check(x);
            for(int i = 0; i < depth; ++i) step();
        }
        void lengths(int max) {
            int n = chooseSize(max), how = choose(3);
            log("%s array of %d made by %d", J::name(), n, how);
            add(n, how);
            auto a = &as[0];
            check(*a);
            if(how == 0) {
                auto name = std::string("[") + J::sig;
                auto c = env->GetObjectClass(a->h);
                MC_CHECK(unwrap<Class>(env, c)->getName() == name, "class", "class %s", unwrap<Class>(env, c)->getName().data());
                MC_CHECK(env->IsSameObject(c, env->FindClass(name.data())), "class", "another class");
            }
            for(int s : {0, 1, n / 2, n - 1, n}) for(int l : {0, 1, 7, n / 3, n - s - 1, n - s}) {
                if(s < 0 || l < 0 || s + l > n) continue;
                set(*a, s, l);
                get(*a, s, l);
                check(*a);
                mc::transition();
            }
            a->el = J::elements(env, a->h, nullptr);
            a->crit = (T*)env->GetPrimitiveArrayCritical(a->h, nullptr);
            for(int i : {0, n / 2, n - 1}) if(i >= 0 && i < n) {
                a->m[i] = fresh(); a->el[i] = a->m[i]; check(*a);
                a->m[i] = fresh(); a->crit[i] = a->m[i]; check(*a);
                a->m[i] = fresh(); (*a->cpp)[i] = a->m[i]; check(*a);
            }
            static const jint modes[] = {0, JNI_COMMIT, JNI_ABORT};
            jint mode = modes[choose(3)];
            env->ReleasePrimitiveArrayCritical(a->h, a->crit, mode);
            J::release(env, a->h, a->el, mode);
            a->el = a->crit = nullptr;
            check(*a);
            // A further array neither shares nor inherits anything
            add(n, 0);
            a = &as[0];
            check(as[1]);
            if(n) { set(as[1], 0, n); check(as[0]); check(as[1]); }
            // Nor does one made after the memory of another was returned
            env->DeleteLocalRef(as[1].h);
            as.pop_back();
            add(n, 0);
            check(as[1]);
            mc::transition();
        }
    };
#define EACH(F) switch(choose(8)) { \
        case 0: { PA<jint> p; p.F; break; } case 1: { PA<jboolean> p; p.F; break; } case 2: { PA<jchar> p; p.F; break; } case 3: { PA<jshort> p; p.F; break; } \
        case 4: { PA<jbyte> p; p.F; break; } case 5: { PA<jlong> p; p.F; break; } case 6: { PA<jfloat> p; p.F; break; } case 7: { PA<jdouble> p; p.F; break; } }
    void history(int depth) { EACH(history(depth)) }
    void lengths(int max) { EACH(lengths(max)) }
}

static int init = [] {
    mc::scenario("history", [] { history(mc::bound(3, 2, 4, 3)); }, 3);
    mc::scenario("lengths", [] { lengths(mc::bound(4097, 1025, 4097, 4097)); }, 2);
    return 0;
}();
