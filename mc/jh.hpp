// Common parts of the harnesses: tracked objects and small JNI helpers
#pragma once
#include "explore.hpp"
#include <jnivm.h>
#include <jnivm/weak.h>
#include <jnivm/internal/findclass.h>
#include <fake-jni/fake-jni.h>
#include <baron/baron.h>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <cstring>
#include <thread>
#include <condition_variable>

namespace jh {
    using namespace jnivm;
    using mc::choose;
    using mc::log;

    // Objects whose existence is observable
    template<class Base = Extends<>> struct Tracked : Base {
        static constexpr uint64_t ALIVE = 0x5afe0b1ec7a11fe5ull;
        static int& alive() { static int n; return n; }
        uint64_t magic = ALIVE;
        int id = -1;
        Tracked() { alive()++; }
        Tracked(const Tracked& o) : Base(o), id(o.id) { alive()++; }
        ~Tracked() { alive()--; magic = 0xdeadull; }
    };

    inline ENV* E(JNIEnv* env) { return ENV::FromJNIEnv(env); }
    template<class T> std::shared_ptr<T> unwrap(JNIEnv* env, jobject o) {
        return JNITypes<std::shared_ptr<T>>::JNICast(E(env), o);
    }
    template<class T> jobject local(JNIEnv* env, const std::shared_ptr<T>& o) {
        return JNITypes<std::shared_ptr<T>>::ToJNIType(E(env), o);
    }
    // Sizes around the boundaries at which containers and buffers change their shape
    inline const std::vector<int>& sizes() {
        static const std::vector<int> s = [] {
            std::vector<int> r;
            for(int i = 0; i <= 20; ++i) r.push_back(i);
            for(int b : {24, 32, 48, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096}) {
                r.push_back(b - 1);
                r.push_back(b);
                r.push_back(b + 1);
            }
            return r;
        }();
        return s;
    }
    inline int chooseSize(int max) {
        auto& s = sizes();
        int n = (int)(std::upper_bound(s.begin(), s.end(), max) - s.begin());
        return s[choose(n)];
    }
    // Another thread that runs what it is given while this one waits: never two at a time
    class Peer {
        std::mutex m;
        std::condition_variable cv;
        std::function<void()> job;
        bool stop = false;
        std::exception_ptr error;
        std::thread t;
        void loop() {
            std::unique_lock<std::mutex> l(m);
            for(;;) {
                cv.wait(l, [&] { return job || stop; });
                if(!job) return;
                try { job(); } catch(...) { error = std::current_exception(); }
                job = nullptr;
                cv.notify_all();
            }
        }
    public:
        Peer() : t([this] { loop(); }) {}
        // Ends the thread, its thread local variables are gone afterwards
        ~Peer() {
            { std::lock_guard<std::mutex> l(m); stop = true; }
            cv.notify_all();
            t.join();
        }
        void run(std::function<void()> f) {
            std::unique_lock<std::mutex> l(m);
            job = std::move(f);
            cv.notify_all();
            cv.wait(l, [&] { return !job; });
            if(error) { auto e = error; error = nullptr; l.unlock(); std::rethrow_exception(e); }
        }
    };
}
