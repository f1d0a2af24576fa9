// P23: monitors give mutual exclusion per object
#include "../mc/sched/conc.hpp"
#include <condition_variable>
#include <mutex>
using namespace ch;

namespace {
    struct Obj : Tracked<> {};
    enum Ref { GLOBAL, WEAK, LOCAL, OWNGLOBAL, OWNWEAK, REFS };
    const char* refname[] = { "the shared global", "the shared weak", "a local", "its own global", "its own weak" };
    enum What { OBJECT, CLASS, STRING, ARRAY, OBJARRAY, METHOD, THROWABLE, BUFFER, WHATS };
    struct World {
        std::unique_ptr<VM> vm{new VM()};
        JNIEnv* env = vm->GetJNIEnv();
        jobject g[2];
        jweak w[2];
        // Who is inside, how deep; only read and written by the thread that runs
        Counter owner[2], depth[2];
        // Protected by the monitors, the race detector watches these
        int data[2] = {};
        Counter entered[2];
        World(What what) {
            E(env)->GetClass<Obj>("x/Obj");
            for(int i = 0; i < 2; ++i) {
                jobject o = nullptr;
                switch(what) {
                case OBJECT: o = local(env, std::make_shared<Obj>()); break;
                case CLASS: o = env->FindClass(i ? "a/B" : "a/A"); break;
                case STRING: o = env->NewStringUTF("abc"); break;
                case ARRAY: o = env->NewIntArray(2); break;
                case OBJARRAY: o = env->NewObjectArray(2, env->FindClass("a/A"), nullptr); break;
                case METHOD: { auto c = env->FindClass("a/A"); o = env->ToReflectedMethod(c, env->GetMethodID(c, i ? "n" : "m", "()V"), false); break; }
                case THROWABLE: { auto t = std::make_shared<Throwable>(); t->except = std::make_exception_ptr(1); o = local(env, t); break; }
                case BUFFER: o = env->NewDirectByteBuffer(&data[i], 4); break;
                default: break;
                }
                g[i] = env->NewGlobalRef(o);
                w[i] = env->NewWeakGlobalRef(o);
                SCHED_CHECK(o && g[i] && w[i], "make", "no object");
            }
        }
        ~World() { for(int i = 0; i < 2; ++i) { env->DeleteGlobalRef(g[i]); env->DeleteWeakGlobalRef(w[i]); } }
    };
    struct Thread {
        World& w;
        JNIEnv* env;
        int no;
        jobject ref(int o, Ref r) {
            sched::Quiet q;
            switch(r) {
            case GLOBAL: return w.g[o];
            case WEAK: return w.w[o];
            case LOCAL: return env->NewLocalRef(w.g[o]);
            case OWNGLOBAL: return env->NewGlobalRef(w.w[o]);
            default: return env->NewWeakGlobalRef(w.g[o]);
            }
        }
        void drop(jobject x, Ref r) {
            sched::Quiet q;
            if(r == LOCAL) env->DeleteLocalRef(x);
            if(r == OWNGLOBAL) env->DeleteGlobalRef(x);
            if(r == OWNWEAK) env->DeleteWeakGlobalRef(x);
        }
        void inside(int o) {
            SCHED_CHECK(w.owner[o].get() == no, "exclusion", "thread %d is inside the monitor of thread %d", w.owner[o].get(), no);
        }
        void enter(int o, Ref r) {
            auto x = ref(o, r);
            log("enters %d by %s reference", o, refname[r]);
            SCHED_CHECK(env->MonitorEnter(x) == 0, "enter", "MonitorEnter failed");
            SCHED_CHECK(w.depth[o].get() == 0 || w.owner[o].get() == no, "exclusion", "thread %d entered the monitor thread %d is inside of", no, w.owner[o].get());
            w.owner[o].set(no);
            w.depth[o].add(1);
            w.entered[o].add(1);
            w.data[o]++;
            drop(x, r);
        }
        void leave(int o, Ref r) {
            auto x = ref(o, r);
            inside(o);
            int v = w.data[o];
            sched::yield();
            inside(o);
            SCHED_CHECK(w.data[o] == v, "exclusion", "another thread changed what the monitor protects");
            w.data[o] = v + 1;
            if(w.depth[o].add(-1) == 0) w.owner[o].set(0);
            log("leaves %d by %s reference", o, refname[r]);
            SCHED_CHECK(env->MonitorExit(x) == 0, "exit", "MonitorExit failed");
            drop(x, r);
        }
    };
    // Which monitors are entered, one within the other, in this order; -1: leave the innermost, -2 - n: leave monitor n
    typedef std::vector<int> Prog;
    const Prog programs[] = {
        {0}, {0, 0}, {0, 1}, {1}, {0, 0, -1, 0}, {0, -1, 0}, {0, -1, 1}, {0, 1, -2, -1, 0}, {0, 1, 0}, {0, 1, -1, 1}, {1, 1, -1, -1, 0}, {0, 0, 0},
    };
    const int N = sizeof programs / sizeof *programs;

    void check(What what, const std::vector<const Prog*>& progs, Ref r1, Ref r2) {
        World w(what);
        std::vector<std::function<void()>> bodies;
        int want[2] = {};
        for(size_t i = 0; i < progs.size(); ++i) {
            for(auto op : *progs[i]) if(op >= 0) want[op]++;
            bodies.push_back([&, i] {
                Attached a(w.vm->GetJavaVM());
                Thread t{w, a.env, (int)i + 1};
                std::vector<int> held;
                auto ri = i ? r2 : r1, ro = i ? r1 : r2;
                for(auto op : *progs[i]) {
                    if(op >= 0) { t.enter(op, ri); held.push_back(op); continue; }
                    auto k = op == -1 ? held.end() - 1 : std::find(held.begin(), held.end(), -2 - op);
                    auto o = *k;
                    held.erase(k);
                    t.leave(o, ro);
                }
                while(!held.empty()) { auto o = held.back(); held.pop_back(); t.leave(o, ro); }
            });
        }
        sched::parallel(bodies);
        for(int i = 0; i < 2; ++i) {
            SCHED_CHECK(w.entered[i].get() == want[i] && w.depth[i].get() == 0, "count", "the monitor was entered %d times", w.entered[i].get());
            SCHED_CHECK(w.data[i] == 2 * want[i], "update", "an update in the monitor is lost");
            // Free again
            SCHED_CHECK(w.env->MonitorEnter(w.g[i]) == 0 && w.env->MonitorExit(w.w[i]) == 0, "free", "the monitor can't be entered");
        }
    }
    // A thread stays inside one monitor until another was inside the other one
    void independent(What what, Ref r) {
        World w(what);
        // Made by the threads together: both have to be inside at the same time
        sched::parallel({
            [&] {
                Attached a(w.vm->GetJavaVM());
                Thread t{w, a.env, 1};
                t.enter(0, r);
                SCHED_CHECK(a.env->MonitorEnter(w.g[1]) == 0, "enter", "MonitorEnter failed");
                w.data[1]++;
                a.env->MonitorExit(w.g[1]);
                t.leave(0, GLOBAL);
            },
            [&] {
                Attached a(w.vm->GetJavaVM());
                for(int i = 0; i < 2; ++i) {
                    SCHED_CHECK(a.env->MonitorEnter(w.w[1]) == 0, "enter", "MonitorEnter failed");
                    w.data[1]++;
                    // Operations of others do not need this monitor
                    auto s = a.env->NewStringUTF("x");
                    auto g = a.env->NewGlobalRef(w.g[0]);
                    SCHED_CHECK(s && a.env->GetStringUTFLength(s) == 1 && a.env->IsSameObject(g, w.g[0]), "use", "references don't work in a monitor");
                    a.env->DeleteGlobalRef(g);
                    a.env->MonitorExit(w.w[1]);
                }
            },
        });
        SCHED_CHECK(w.data[1] == 3, "update", "an update in the monitor is lost");
    }
    // Thread 1 stays inside monitor 0 until thread 2 was inside monitor 1
    void baton(What what, Ref r) {
        World w(what);
        std::mutex m;
        std::condition_variable c;
        bool was = false;
        sched::parallel({
            [&] {
                Attached a(w.vm->GetJavaVM());
                Thread t{w, a.env, 1};
                t.enter(0, r);
                { std::unique_lock<std::mutex> lock(m); while(!was) c.wait(lock); }
                t.leave(0, r);
            },
            [&] {
                Attached a(w.vm->GetJavaVM());
                Thread t{w, a.env, 2};
                t.enter(1, r);
                { std::unique_lock<std::mutex> lock(m); was = true; c.notify_one(); }
                t.leave(1, r);
                t.enter(0, r);
                t.leave(0, r);
            },
        });
    }
    // Thread 1 is inside the monitors of one half of many objects of all kinds until thread 2 was inside each one of the other half
    void many(int n, int which) {
        VM vm;
        auto env = vm.GetJNIEnv();
        E(env)->GetClass<Obj>("x/Obj");
        std::vector<jobject> o;
        {
            sched::Quiet q;
            for(int i = 0; i < n; ++i) {
                env->PushLocalFrame(2);
                jobject x;
                switch(i % 5) {
                case 0: x = local(env, std::make_shared<Obj>()); break;
                case 1: x = env->NewStringUTF("abc"); break;
                case 2: x = env->NewIntArray(1); break;
                case 3: x = env->FindClass(("a/C" + std::to_string(i)).data()); break;
                default: x = env->NewObjectArray(1, env->FindClass("a/A"), nullptr); break;
                }
                o.push_back(env->NewGlobalRef(x));
                env->PopLocalFrame(nullptr);
            }
        }
        // 0: even and odd, 1: first and second half, 2: all but the last and the last, 3: the first and all others
        auto first = [&](int i) { return which == 0 ? i % 2 == 0 : which == 1 ? i < n / 2 : which == 2 ? i < n - 1 : i == 0; };
        std::mutex m;
        std::condition_variable c;
        int at = 0;
        auto body = [&](bool mine) {
            Attached a(vm.GetJavaVM());
            if(!mine) { std::unique_lock<std::mutex> lock(m); while(at < 1) c.wait(lock); }
            for(int i = 0; i < n; ++i) if(first(i) == mine) SCHED_CHECK(a.env->MonitorEnter(o[i]) == 0, "enter", "MonitorEnter failed");
            { std::unique_lock<std::mutex> lock(m); at++; c.notify_all(); while(at < 2) c.wait(lock); }
            for(int i = 0; i < n; ++i) if(first(i) == mine) SCHED_CHECK(a.env->MonitorExit(o[i]) == 0, "exit", "MonitorExit failed");
        };
        sched::parallel({[&] { body(true); }, [&] { body(false); }});
        sched::Quiet q;
        for(auto x : o) env->DeleteGlobalRef(x);
    }
    int init = [] {
        sched::scenario("many", [] { many(sched::thorough() ? 1000 : 300, choose(4)); }, 0, 0);
        sched::scenario("pairs", [] {
            int a = choose(N), b = choose(N);
            auto r1 = (Ref)choose(REFS), r2 = (Ref)(sched::thorough() ? choose(REFS) : (r1 + b) % REFS);
            check(OBJECT, {&programs[a], &programs[b]}, r1, r2);
        }, 1, 2);
        sched::scenario("deep", [] {
            int a = choose(N), b = a + choose(N - a);
            check(OBJECT, {&programs[a], &programs[b]}, GLOBAL, WEAK);
        }, 2, 4);
        sched::scenario("three", [] {
            int a = choose(N), b = choose(N), c = choose(N);
            if(!sched::thorough() && (a > b || b > c || c > 5)) return;
            check(OBJECT, {&programs[a], &programs[b], &programs[c]}, GLOBAL, LOCAL);
        }, 1, 2);
        sched::scenario("objects", [] {
            auto what = (What)choose(WHATS);
            int a = choose(3), b = choose(N);
            check(what, {&programs[a], &programs[b]}, (Ref)choose(2), LOCAL);
        }, 1, 2);
        sched::scenario("independent", [] {
            auto what = (What)choose(WHATS);
            independent(what, (Ref)choose(REFS));
        }, 1, 2);
        sched::scenario("baton", [] {
            auto what = (What)choose(WHATS);
            baton(what, (Ref)choose(REFS));
        }, 2, 3);
        return 0;
    }();
}
