// The JNI functions of each type, so that harnesses can be written once for all of them
#pragma once
#include "jh.hpp"
#include <cstdarg>

namespace jh {
    template<class T> struct JT;
#define JT_COMMON(T, Name, SIG, FIELDU) \
        using type = T; \
        static constexpr char sig = SIG; \
        static const char* name() { return #Name; } \
        static T& in(jvalue& v) { return v.FIELDU; } \
        template<class...P> static T call(JNIEnv* e, jobject o, jmethodID m, P...p) { return e->functions->Call##Name##Method(e, o, m, p...); } \
        static T callV(JNIEnv* e, jobject o, jmethodID m, va_list l) { return e->functions->Call##Name##MethodV(e, o, m, l); } \
        static T callA(JNIEnv* e, jobject o, jmethodID m, jvalue* a) { return e->functions->Call##Name##MethodA(e, o, m, a); } \
        template<class...P> static T nv(JNIEnv* e, jobject o, jclass c, jmethodID m, P...p) { return e->functions->CallNonvirtual##Name##Method(e, o, c, m, p...); } \
        static T nvV(JNIEnv* e, jobject o, jclass c, jmethodID m, va_list l) { return e->functions->CallNonvirtual##Name##MethodV(e, o, c, m, l); } \
        static T nvA(JNIEnv* e, jobject o, jclass c, jmethodID m, jvalue* a) { return e->functions->CallNonvirtual##Name##MethodA(e, o, c, m, a); } \
        template<class...P> static T st(JNIEnv* e, jclass c, jmethodID m, P...p) { return e->functions->CallStatic##Name##Method(e, c, m, p...); } \
        static T stV(JNIEnv* e, jclass c, jmethodID m, va_list l) { return e->functions->CallStatic##Name##MethodV(e, c, m, l); } \
        static T stA(JNIEnv* e, jclass c, jmethodID m, jvalue* a) { return e->functions->CallStatic##Name##MethodA(e, c, m, a); }
#define JT_FIELD(T, Name) \
        static T get(JNIEnv* e, jobject o, jfieldID f) { return e->functions->Get##Name##Field(e, o, f); } \
        static void set(JNIEnv* e, jobject o, jfieldID f, T v) { e->functions->Set##Name##Field(e, o, f, v); } \
        static T sget(JNIEnv* e, jclass c, jfieldID f) { return e->functions->GetStatic##Name##Field(e, c, f); } \
        static void sset(JNIEnv* e, jclass c, jfieldID f, T v) { e->functions->SetStatic##Name##Field(e, c, f, v); }
#define JT_PRIM(T, Name, SIG, FIELDU) template<> struct JT<T> { \
        JT_COMMON(T, Name, SIG, FIELDU) \
        JT_FIELD(T, Name) \
        using array = T##Array; \
        static array newArray(JNIEnv* e, jsize n) { return e->functions->New##Name##Array(e, n); } \
        static T* elements(JNIEnv* e, array a, jboolean* c) { return e->functions->Get##Name##ArrayElements(e, a, c); } \
        static void release(JNIEnv* e, array a, T* p, jint mode) { e->functions->Release##Name##ArrayElements(e, a, p, mode); } \
        static void getRegion(JNIEnv* e, array a, jsize s, jsize n, T* p) { e->functions->Get##Name##ArrayRegion(e, a, s, n, p); } \
        static void setRegion(JNIEnv* e, array a, jsize s, jsize n, const T* p) { e->functions->Set##Name##ArrayRegion(e, a, s, n, p); } \
    };
    JT_PRIM(jboolean, Boolean, 'Z', z)
    JT_PRIM(jbyte, Byte, 'B', b)
    JT_PRIM(jchar, Char, 'C', c)
    JT_PRIM(jshort, Short, 'S', s)
    JT_PRIM(jint, Int, 'I', i)
    JT_PRIM(jlong, Long, 'J', j)
    JT_PRIM(jfloat, Float, 'F', f)
    JT_PRIM(jdouble, Double, 'D', d)
    template<> struct JT<jobject> {
        JT_COMMON(jobject, Object, 'L', l)
        JT_FIELD(jobject, Object)
    };
    template<> struct JT<void> {
        static constexpr char sig = 'V';
        static const char* name() { return "Void"; }
        template<class...P> static void call(JNIEnv* e, jobject o, jmethodID m, P...p) { e->functions->CallVoidMethod(e, o, m, p...); }
        static void callV(JNIEnv* e, jobject o, jmethodID m, va_list l) { e->functions->CallVoidMethodV(e, o, m, l); }
        static void callA(JNIEnv* e, jobject o, jmethodID m, jvalue* a) { e->functions->CallVoidMethodA(e, o, m, a); }
        template<class...P> static void nv(JNIEnv* e, jobject o, jclass c, jmethodID m, P...p) { e->functions->CallNonvirtualVoidMethod(e, o, c, m, p...); }
        static void nvV(JNIEnv* e, jobject o, jclass c, jmethodID m, va_list l) { e->functions->CallNonvirtualVoidMethodV(e, o, c, m, l); }
        static void nvA(JNIEnv* e, jobject o, jclass c, jmethodID m, jvalue* a) { e->functions->CallNonvirtualVoidMethodA(e, o, c, m, a); }
        template<class...P> static void st(JNIEnv* e, jclass c, jmethodID m, P...p) { e->functions->CallStaticVoidMethod(e, c, m, p...); }
        static void stV(JNIEnv* e, jclass c, jmethodID m, va_list l) { e->functions->CallStaticVoidMethodV(e, c, m, l); }
        static void stA(JNIEnv* e, jclass c, jmethodID m, jvalue* a) { e->functions->CallStaticVoidMethodA(e, c, m, a); }
    };
    // A value array as the System V x86-64 va_list of a variadic call with these promoted arguments.
    // Pairs: true for a floating point argument
    struct VaArgs {
        struct Tag { unsigned gp, fp; void* overflow; void* save; };
        alignas(16) uint64_t save[6 + 16];
        std::vector<uint64_t> over;
        Tag tag[1];
        void build(const std::vector<std::pair<bool, uint64_t>>& args, int gpUsed) {
            memset(save, 0xA5, sizeof(save));
            over.clear();
            int gp = gpUsed, fp = 0;
            for(auto& a : args) {
                if(a.first) {
                    if(fp < 8) save[6 + 2 * fp++] = a.second;
                    else over.push_back(a.second);
                } else {
                    if(gp < 6) save[gp++] = a.second;
                    else over.push_back(a.second);
                }
            }
            over.push_back(0xA5A5A5A5A5A5A5A5ull);
            tag[0] = {(unsigned)gpUsed * 8, 48, over.data(), save};
        }
        template<class F> auto with(F f) {
            va_list l;
            static_assert(sizeof(va_list) == sizeof(Tag), "System V x86-64 only");
            memcpy(&l, tag, sizeof(Tag));
            return f(l);
        }
    };
    // Bit patterns which tell the types and positions apart
    template<class T> T value(int i) {
        T v;
        uint64_t x = 0x9e3779b97f4a7c15ull * (uint64_t)(i + 1);
        x ^= x >> 29;
        memcpy(&v, &x, sizeof(T));
        return v;
    }
    template<> inline jboolean value<jboolean>(int i) {
        static const jboolean v[] = {JNI_TRUE, JNI_FALSE, 2, 0x80, 0xFF};
        return v[i % 5];
    }
    template<> inline jfloat value<jfloat>(int i) {
        static const uint32_t v[] = {0x3fc00000u, 0x80000000u, 0x7f800000u, 0x00000001u, 0xff7fffffu, 0x7fc00000u, 0x3eaaaaabu, 0xc2f6e979u};
        float f; uint32_t b = v[i % 8] ; memcpy(&f, &b, 4); return f;
    }
    template<> inline jdouble value<jdouble>(int i) {
        static const uint64_t v[] = {0x3ff8000000000001ull, 0x8000000000000000ull, 0x7ff0000000000000ull, 1ull, 0xffefffffffffffffull, 0x7ff8000000000001ull, 0x3fd5555555555555ull, 0xc05edd2f1a9fbe77ull};
        double f; uint64_t b = v[i % 8]; memcpy(&f, &b, 8); return f;
    }
    template<class T> bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }
    template<class T> unsigned long long bits(T a) { unsigned long long r = 0; memcpy(&r, &a, sizeof(T)); return r; }
}
