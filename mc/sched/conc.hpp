// Common parts of the concurrent harnesses
#pragma once
#include "sched.hpp"
#include <jnivm.h>
#include <jnivm/weak.h>
#include <jnivm/internal/findclass.h>
#include <fake-jni/fake-jni.h>
#include <baron/baron.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>

namespace ch {
    using namespace jnivm;
    using sched::choose;
    using sched::log;

    // Plain counters and flags of the harness: one thread runs at a time, so they need no synchronization,
    // and must not add any
    struct Counter {
        int v = 0;
        __attribute__((no_sanitize_thread, noinline)) int add(int d) { return v += d; }
        __attribute__((no_sanitize_thread, noinline)) int get() { return v; }
        __attribute__((no_sanitize_thread, noinline)) void set(int x) { v = x; }
    };
    // Objects whose existence is observable
    template<class Base = Extends<>> struct Tracked : Base {
        static constexpr uint64_t ALIVE = 0x5afe0b1ec7a11fe5ull;
        static Counter& alive() { static Counter n; return n; }
        uint64_t magic = ALIVE;
        int id = -1;
        Tracked() { alive().add(1); }
        Tracked(const Tracked& o) : Base(o), id(o.id) { alive().add(1); }
        ~Tracked() { alive().add(-1); magic = 0xdeadull; }
    };
    inline ENV* E(JNIEnv* env) { return ENV::FromJNIEnv(env); }
    template<class T> std::shared_ptr<T> unwrap(JNIEnv* env, jobject o) {
        return JNITypes<std::shared_ptr<T>>::JNICast(E(env), o);
    }
    template<class T> jobject local(JNIEnv* env, const std::shared_ptr<T>& o) {
        return JNITypes<std::shared_ptr<T>>::ToJNIType(E(env), o);
    }
    inline uint64_t hash(const std::string& s) {
        uint64_t h = 1469598103934665603ull;
        for(unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        return h;
    }
    // The calling thread attached for as long as this exists
    struct Attached {
        JavaVM* vm;
        JNIEnv* env = nullptr;
        Attached(JavaVM* v) : vm(v) {
            sched::Quiet q;
            SCHED_CHECK(vm->AttachCurrentThread(&env, nullptr) == JNI_OK && env, "attach", "AttachCurrentThread failed");
        }
        ~Attached() { sched::Quiet q; vm->DetachCurrentThread(); }
    };
    inline void needSame(const void* a, const void* b, const char* key, const char* what) {
        SCHED_CHECK(a == b, key, "%s: %s", what, a && b ? "different" : "missing for one");
    }
}
