// P21: concurrent reference operations never lose or corrupt a handle
#include "../mc/sched/conc.hpp"
#include <atomic>
using namespace ch;

namespace {
    struct Obj : Tracked<> {};
    // W is a weak reference to an object o held by the global reference G of the first thread,
    // H a global reference to another object that lives throughout
    enum { PROMOTE, PROMOTEGLOBAL, DELETEOWN, DROPLOCALS, ISDEAD, WEAKOFWEAK, PROMOTEWW, STABLE, STABLEWEAK, FRAME, COMPARE, TYPES, OPS, DELETEG = OPS, END };
    const char* opname[] = { "NewLocalRef of the weak", "NewGlobalRef of the weak", "DeleteGlobalRef of its own", "DeleteLocalRef of all", "IsSameObject of the weak and null",
        "NewWeakGlobalRef of the weak", "NewLocalRef of the weak of the weak", "global and local references to another object", "weak references to another object",
        "references in frames", "IsSameObject of both objects", "GetObjectRefType", "DeleteGlobalRef of the last strong reference", "detach" };
    typedef std::vector<int> Prog;
    typedef std::vector<int> Results;

    struct Thread {
        std::vector<jobject> locals;
        jobject own = nullptr, ww = nullptr;
        Results results;
    };
    struct World {
        std::unique_ptr<VM> vm;
        JNIEnv* env;
        jobject G, H;
        jweak W;
        size_t before;
        World() : vm(new VM()), env(vm->GetJNIEnv()) {
            before = vm->globals.size();
            auto e = E(env);
            e->GetClass<Obj>("x/Obj");
            auto make = [&](int id) {
                auto o = std::make_shared<Obj>();
                o->id = id;
                auto l = local(env, o);
                auto g = env->NewGlobalRef(l);
                env->DeleteLocalRef(l);
                return g;
            };
            G = make(1);
            H = make(2);
            W = env->NewWeakGlobalRef(G);
            SCHED_CHECK(G && H && W, "make", "references could not be made");
        }
        static void valid(JNIEnv* env, jobject o, int id, const char* what) {
            auto p = unwrap<Obj>(env, o);
            SCHED_CHECK(p, "lost", "%s refers to nothing", what);
            SCHED_CHECK(p->magic == Obj::ALIVE, "destroyed", "%s refers to a destroyed object", what);
            SCHED_CHECK(p->id == id, "other", "%s refers to another object", what);
        }
        void run(JNIEnv* env, Thread& t, int op) {
            int r = -1;
            switch(op) {
            case PROMOTE: {
                auto l = env->NewLocalRef(W);
                if((r = l != nullptr)) { valid(env, l, 1, "the promoted reference"); t.locals.push_back(l); }
                break;
            }
            case PROMOTEGLOBAL:
                if(t.own) break;
                t.own = env->NewGlobalRef(W);
                if((r = t.own != nullptr)) valid(env, t.own, 1, "the promoted global reference");
                break;
            case DELETEOWN:
                if(!t.own) break;
                valid(env, t.own, 1, "the thread's own global reference");
                env->DeleteGlobalRef(t.own);
                t.own = nullptr;
                break;
            case DROPLOCALS:
                for(auto l : t.locals) { valid(env, l, 1, "the local reference"); env->DeleteLocalRef(l); }
                t.locals.clear();
                break;
            case ISDEAD: r = env->IsSameObject(W, nullptr); break;
            case WEAKOFWEAK:
                if(t.ww) break;
                t.ww = env->NewWeakGlobalRef(W);
                r = t.ww != nullptr;
                break;
            case PROMOTEWW:
                if(t.ww) {
                    auto l = env->NewLocalRef(t.ww);
                    if((r = l != nullptr)) { valid(env, l, 1, "the reference promoted from a weak of a weak"); t.locals.push_back(l); }
                }
                break;
            case STABLE: {
                auto g = env->NewGlobalRef(H);
                SCHED_CHECK(g, "null", "NewGlobalRef of a live object is null");
                auto l = env->NewLocalRef(g);
                SCHED_CHECK(env->IsSameObject(g, H) && env->IsSameObject(l, H), "same", "references to one object differ");
                valid(env, g, 2, "a global reference");
                env->DeleteGlobalRef(g);
                valid(env, l, 2, "a local reference");
                env->DeleteLocalRef(l);
                valid(env, H, 2, "the shared global reference");
                break;
            }
            case STABLEWEAK: {
                auto w = env->NewWeakGlobalRef(H);
                SCHED_CHECK(w && !env->IsSameObject(w, nullptr), "cleared", "the weak reference to a live object is null");
                auto l = env->NewLocalRef(w);
                SCHED_CHECK(l, "cleared", "a weak reference to a live object can't be promoted");
                valid(env, l, 2, "a promoted reference");
                SCHED_CHECK(env->IsSameObject(w, H), "same", "references to one object differ");
                env->DeleteWeakGlobalRef(w);
                valid(env, l, 2, "a promoted reference");
                env->DeleteLocalRef(l);
                break;
            }
            case FRAME: {
                env->PushLocalFrame(4);
                auto l = env->NewLocalRef(H);
                auto a = env->NewLocalRef(W);
                auto q = env->PopLocalFrame(l);
                valid(env, q, 2, "the result of a frame");
                env->DeleteLocalRef(q);
                (void)a;
                break;
            }
            case COMPARE: r = env->IsSameObject(W, H); break;
            case TYPES:
                SCHED_CHECK(env->GetObjectRefType(H) == JNIGlobalRefType, "type", "wrong type of a global reference");
                SCHED_CHECK(env->GetObjectRefType(W) == JNIWeakGlobalRefType, "type", "wrong type of a weak reference");
                break;
            case DELETEG:
                valid(env, G, 1, "the last strong reference");
                env->DeleteGlobalRef(G);
                break;
            }
            t.results.push_back(r);
        }
    };
    // The same on numbers: results of the operations in one order. An operation using the weak reference
    // holds the object from its first to its second step, other threads may notice that
    struct Model {
        int strong = 1;
        struct T { int locals = 0; bool own = false, ww = false, busy = false; uint64_t results = 7; size_t pos = 0; };
        std::vector<T> t;
        static bool two(int op) {
            switch(op) { case PROMOTE: case PROMOTEGLOBAL: case ISDEAD: case WEAKOFWEAK: case PROMOTEWW: case FRAME: case COMPARE: return true; }
            return false;
        }
        // One step of the thread's current operation
        void step(int i, int op) {
            auto& x = t[i];
            int r = -1;
            if(x.busy) { x.busy = false; strong--; x.pos++; return; }
            bool have = strong > 0;
            switch(op) {
            case PROMOTE: r = have; x.locals += r; strong += r; break;
            case PROMOTEGLOBAL: if(!x.own) { r = x.own = have; strong += r; } break;
            case DELETEOWN: if(x.own) { x.own = false; strong--; } break;
            case DROPLOCALS: case END: strong -= x.locals; x.locals = 0; break;
            case ISDEAD: r = !have; break;
            case WEAKOFWEAK: if(!x.ww) r = x.ww = have; break;
            case PROMOTEWW: if(x.ww) { r = have; x.locals += r; strong += r; } break;
            case COMPARE: r = 0; break;
            case DELETEG: strong--; break;
            }
            if(op != END) x.results = x.results * 131 + r + 2;
            if(two(op) && have) { x.busy = true; strong++; }
            else x.pos++;
        }
        uint64_t outcome() const {
            uint64_t h = strong > 0;
            for(auto& x : t) h = h * 1000003 + x.results * 4 + x.own * 2 + x.ww;
            return h;
        }
    };
    void check(const std::vector<Prog>& progs) {
        World w;
        std::vector<Thread> ts(progs.size());
        std::vector<std::function<void()>> bodies;
        for(size_t i = 0; i < progs.size(); ++i) {
            ts[i].locals.reserve(8);
            ts[i].results.reserve(8);
            bodies.push_back([&, i] {
                Attached a(w.vm->GetJavaVM());
                for(auto op : progs[i]) {
                    log("%s", opname[op]);
                    w.run(a.env, ts[i], op);
                }
            });
        }
        sched::parallel(bodies);
        Model seen;
        bool alive = Obj::alive().get() == 2;
        SCHED_CHECK(alive || Obj::alive().get() == 1, "objects", "%d objects exist", Obj::alive().get());
        seen.strong = alive;
        std::string text;
        for(auto& t : ts) {
            Model::T x;
            text += " {";
            for(auto r : t.results) { x.results = x.results * 131 + r + 2; text += " " + std::to_string(r); }
            text += " }";
            x.own = t.own;
            x.ww = t.ww;
            seen.t.push_back(x);
        }
        uint64_t key = 17;
        for(auto& p : progs) { key = key * 41 + 1; for(auto op : p) key = key * 41 + op + 2; }
        auto valid = sched::memo(key, [&] {
            std::set<uint64_t> r;
            std::set<std::vector<uint64_t>> done;
            Model m;
            m.t.resize(progs.size());
            std::function<void(const Model&)> go = [&](const Model& m) {
                std::vector<uint64_t> st{m.outcome(), (uint64_t)m.strong};
                for(auto& x : m.t) { st.push_back(x.pos * 2 + x.busy); st.push_back(x.locals); }
                if(!done.insert(st).second) return;
                bool end = true;
                for(size_t i = 0; i < progs.size(); ++i) {
                    if(m.t[i].pos > progs[i].size()) continue;
                    end = false;
                    Model n = m;
                    n.step(i, m.t[i].pos == progs[i].size() ? END : progs[i][m.t[i].pos]);
                    go(n);
                }
                if(end) r.insert(m.outcome());
            };
            go(m);
            return std::vector<uint64_t>(r.begin(), r.end());
        });
        SCHED_CHECK(std::count(valid.begin(), valid.end(), seen.outcome()), "results", "the results%s, the object %s, are not those of any order of the operations", text.c_str(), alive ? "alive" : "gone");
        // What is left works and can be deleted
        auto env = w.env;
        World::valid(env, w.H, 2, "the shared global reference");
        bool dead = env->IsSameObject(w.W, nullptr);
        SCHED_CHECK(dead == !alive, "weak", "the weak reference is %s", dead ? "cleared while the object lives" : "not cleared");
        for(auto& t : ts) {
            if(t.own) { World::valid(env, t.own, 1, "a global reference of a thread that ended"); env->DeleteGlobalRef(t.own); }
            if(t.ww) env->DeleteWeakGlobalRef(t.ww);
        }
        bool deleted = false;
        for(auto op : progs[0]) deleted |= op == DELETEG;
        if(!deleted) { World::valid(env, w.G, 1, "the global reference"); env->DeleteGlobalRef(w.G); }
        env->DeleteGlobalRef(w.H);
        env->DeleteWeakGlobalRef(w.W);
        SCHED_CHECK(Obj::alive().get() == 0, "leak", "%d objects are left after the last reference is deleted", Obj::alive().get());
        SCHED_CHECK(w.vm->globals.size() == w.before, "handles", "%d handles are left behind", (int)(w.vm->globals.size() - w.before));
    }
    // Handles made by one thread, used and deleted by another
    void pass(int kind, int n) {
        World w;
        static std::atomic<jobject> slot[2];
        for(auto& s : slot) s.store(nullptr);
        auto produce = [&](int at) {
            Attached a(w.vm->GetJavaVM());
            for(int i = 0; i < n; ++i) {
                auto o = std::make_shared<Obj>();
                o->id = 10 + i;
                auto l = local(a.env, o);
                o.reset();
                auto g = kind == 1 ? a.env->NewWeakGlobalRef(l) : a.env->NewGlobalRef(l);
                SCHED_CHECK(g, "null", "a reference could not be made");
                if(kind == 0) a.env->DeleteLocalRef(l);
                log("passes a %s reference", kind == 1 ? "weak" : "global");
                if(auto old = slot[at].exchange(g)) kind == 1 ? a.env->DeleteWeakGlobalRef(old) : a.env->DeleteGlobalRef(old);
            }
        };
        auto consume = [&](int at) {
            Attached a(w.vm->GetJavaVM());
            for(int i = 0; i < n; ++i) {
                auto g = slot[at].exchange(nullptr);
                if(!g) continue;
                log("takes a reference");
                auto l = a.env->NewLocalRef(g);
                if(kind == 0) SCHED_CHECK(l, "lost", "a passed global reference refers to nothing");
                if(l) {
                    auto p = unwrap<Obj>(a.env, l);
                    SCHED_CHECK(p && p->magic == Obj::ALIVE && p->id >= 10, "other", "a passed reference refers to something else");
                    p.reset();
                    SCHED_CHECK(a.env->IsSameObject(l, g), "same", "references to one object differ");
                }
                kind == 1 ? a.env->DeleteWeakGlobalRef(g) : a.env->DeleteGlobalRef(g);
                if(l) SCHED_CHECK(unwrap<Obj>(a.env, l)->magic == Obj::ALIVE, "destroyed", "the object is gone while a local reference exists");
            }
        };
        if(kind < 2) sched::parallel({[&] { produce(0); }, [&] { consume(0); }});
        else { kind -= 2; sched::parallel({[&] { produce(0); consume(1); }, [&] { produce(1); consume(0); }}); }
        for(auto& s : slot) if(auto g = s.exchange(nullptr)) kind == 1 ? w.env->DeleteWeakGlobalRef(g) : w.env->DeleteGlobalRef(g);
        w.env->DeleteGlobalRef(w.G);
        w.env->DeleteGlobalRef(w.H);
        w.env->DeleteWeakGlobalRef(w.W);
        SCHED_CHECK(Obj::alive().get() == 0, "leak", "%d objects are left after the last reference is deleted", Obj::alive().get());
        SCHED_CHECK(w.vm->globals.size() == w.before, "handles", "%d handles are left behind", (int)(w.vm->globals.size() - w.before));
    }

    int init = [] {
        // The last strong reference goes away before, between or after two operations of another thread
        sched::scenario("last", [] {
            int a = choose(OPS), b = choose(OPS);
            check({{DELETEG}, {a, b}});
        }, 2, 3);
        sched::scenario("around", [] {
            static const int around[] = { PROMOTE, PROMOTEGLOBAL, WEAKOFWEAK, ISDEAD };
            bool before = choose(2);
            int o = around[choose(4)], a = choose(OPS), b = choose(OPS);
            check({before ? Prog{o, DELETEG} : Prog{DELETEG, o}, {a, b}});
        }, 1, 2);
        sched::scenario("sequences", [] {
            int a = choose(OPS), b = choose(OPS), c = choose(OPS);
            if(!sched::thorough() && (c == COMPARE || c == TYPES || c == FRAME)) return;
            check({{a, DELETEG, b}, {b, c, DELETEOWN, DROPLOCALS}});
        }, 1, 2);
        sched::scenario("three", [] {
            int a = choose(OPS), b = a + choose(OPS - a);
            check({{DELETEG}, {a}, {b}});
        }, 1, 2);
        sched::scenario("passing", [] {
            int kind = choose(4);
            pass(kind, 1 + choose(2));
        }, 2, 4);
        return 0;
    }();
}
