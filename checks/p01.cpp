// P01: local references and frames. Every history of reference and frame operations to the bound,
// against a stack of multisets.
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    struct Tr : Tracked<> {
    };
    constexpr int MAXOBJ = 3;

    struct World {
        VM vm;
        JNIEnv* env;
        std::vector<std::weak_ptr<Tr>> objs;
        std::vector<jobject> handle;
        // Handles that are no local references (or null)
        std::vector<jobject> global, weak;
        std::vector<std::vector<int>> frames{{}};
        // Other places which may hold the objects
        jclass cl = nullptr;
        jmethodID make = nullptr, get = nullptr, ctor = nullptr;
        std::vector<std::shared_ptr<Tr>> pool;
        std::shared_ptr<Tr> next;

        World() {
            env = vm.GetJNIEnv();
            auto c = E(env)->GetClass<Tr>("Tr");
            c->Hook(E(env), "make", [this]() { return std::move(next); });
            c->Hook(E(env), "<init>", [this]() { return std::move(next); });
            cl = (jclass)env->NewGlobalRef((jobject)(Object*)c.get());
            make = env->GetStaticMethodID(cl, "make", "()LTr;");
            ctor = env->GetMethodID(cl, "<init>", "()V");
            MC_CHECK(make && ctor, "setup", "no method id");
        }
        int count(int o) {
            int n = 0;
            for(auto& f : frames) n += (int)std::count(f.begin(), f.end(), o);
            return n;
        }
        void check() {
            std::string st;
            for(size_t i = 0; i < objs.size(); ++i) {
                bool held = i < global.size() && global[i];
                bool want = count((int)i) > 0 || held;
                bool is = !objs[i].expired();
                MC_CHECK(want == is, want ? "released-early" : "released-late", "object %zu has %d local references but is %s", i, count((int)i), is ? "alive" : "gone");
                if(held) st += (char)('A' + i);
                if(count((int)i)) {
                    auto o = unwrap<Tr>(env, handle[i]);
                    MC_CHECK(o && o->magic == Tr::ALIVE && o->id == (int)i, "wrong-object", "the handle of object %zu denotes another object", i);
                    MC_CHECK(env->GetObjectRefType(handle[i]) == JNILocalRefType, "ref-kind", "not a local reference");
                }
            }
            for(auto& f : frames) {
                auto s = f;
                std::sort(s.begin(), s.end());
                for(int o : s) st += (char)('a' + o);
                st += '|';
            }
            mc::state(st);
        }
        // A new object as returned by the implementation of a method
        int create(int how) {
            int id = (int)objs.size();
            next = std::make_shared<Tr>();
            next->id = id;
            objs.push_back(next);
            jobject h = nullptr;
            switch(how) {
            case 0: h = env->CallStaticObjectMethod(cl, make); break;
            case 1: h = env->NewObject(cl, ctor); break;
            case 2: h = local(env, next); next = nullptr; break;
            }
            MC_CHECK(h, "null-reference", "no reference for a new object");
            MC_CHECK(!env->ExceptionCheck(), "setup", "exception");
            handle.push_back(h);
            frames.back().push_back(id);
            return id;
        }
        void dup(int o, int how) {
            jobject h = nullptr;
            switch(how) {
            case 0: h = env->NewLocalRef(handle[o]); break;
            case 1: next = objs[o].lock(); h = env->CallStaticObjectMethod(cl, make); break;
            case 2: {
                auto g = env->NewGlobalRef(handle[o]);
                h = env->NewLocalRef(g);
                env->DeleteGlobalRef(g);
                break;
            }
            case 3: {
                auto g = env->NewWeakGlobalRef(handle[o]);
                h = env->NewLocalRef(g);
                env->DeleteWeakGlobalRef(g);
                break;
            }
            case 4: {
                auto a = std::make_shared<Array<Object>>(1);
                (*a)[0] = std::shared_ptr<Object>(objs[o].lock());
                h = env->GetObjectArrayElement((jobjectArray)(Object*)a.get(), 0);
                break;
            }
            }
            MC_CHECK(h, "null-reference", "no reference");
            MC_CHECK(env->IsSameObject(h, handle[o]), "not-same", "the reference denotes another object");
            handle[o] = h;
            frames.back().push_back(o);
        }
        void del(int o) {
            env->DeleteLocalRef(handle[o]);
            for(auto f = frames.rbegin(); f != frames.rend(); ++f) {
                auto i = std::find(f->begin(), f->end(), o);
                if(i != f->end()) { f->erase(i); return; }
            }
        }
        void push(int cap) {
            MC_CHECK(env->PushLocalFrame(cap) == 0, "push-failed", "PushLocalFrame failed");
            frames.emplace_back();
        }
        void pop(int result) {
            jobject r = env->PopLocalFrame(result >= 0 ? handle[result] : nullptr);
            frames.pop_back();
            if(result >= 0) {
                MC_CHECK(r, "null-reference", "the result is lost");
                handle[result] = r;
                frames.back().push_back(result);
            } else {
                MC_CHECK(!r, "result", "result without a result");
            }
        }
        // The result of the frame through a handle of another kind
        void popForeign(int o, bool byWeak) {
            bool alive = !objs[o].expired();
            // The frame of the result is not the only one to hold it
            bool stays = byWeak ? alive : true;
            jobject r = env->PopLocalFrame(byWeak ? weak[o] : global[o]);
            frames.pop_back();
            MC_CHECK((bool)r == stays, "result", "the result is %s", r ? "there" : "lost");
            if(r) {
                handle[o] = r;
                frames.back().push_back(o);
            }
        }
        void dupForeign(int o, bool byWeak) {
            bool alive = !objs[o].expired();
            jobject r = env->NewLocalRef(byWeak ? weak[o] : global[o]);
            MC_CHECK((bool)r == alive, "result", "the new reference is %s", r ? "there" : "lost");
            if(r) {
                handle[o] = r;
                frames.back().push_back(o);
            }
        }
        std::vector<int> reachable() {
            std::vector<int> r;
            for(size_t i = 0; i < objs.size(); ++i) if(count((int)i)) r.push_back((int)i);
            return r;
        }
    };

    void history(int depth, bool wide) {
        {
            World w;
            for(int i = 0; i < depth; ++i) {
                auto r = w.reachable();
                int n = (int)r.size(), k;
                int creates = (int)w.objs.size() < MAXOBJ ? (wide ? 3 : 1) : 0;
                int dups = n * (wide ? 5 : 1);
                int dels = n;
                int pushes = (int)w.frames.size() < 5 ? (wide ? 3 : 1) : 0;
                int pops = w.frames.size() > 1 ? 1 + n : 0;
                int ensures = wide ? 2 : 0;
                k = choose(creates + dups + dels + pushes + pops + ensures);
                if(k < creates) {
                    log("object %zu created (%d)", w.objs.size(), k);
                    w.create(k);
                } else if((k -= creates) < dups) {
                    log("reference to object %d (%d)", r[k % n], k / n);
                    w.dup(r[k % n], k / n);
                } else if((k -= dups) < dels) {
                    log("DeleteLocalRef object %d", r[k]);
                    w.del(r[k]);
                } else if((k -= dels) < pushes) {
                    static const int caps[] = {0, 1, 64};
                    log("PushLocalFrame %d", caps[k]);
                    w.push(caps[k]);
                } else if((k -= pushes) < pops) {
                    log("PopLocalFrame object %d", k ? r[k - 1] : -1);
                    w.pop(k ? r[k - 1] : -1);
                } else {
                    k -= pops;
                    log("EnsureLocalCapacity %d", k ? 100 : 0);
                    MC_CHECK(w.env->EnsureLocalCapacity(k ? 100 : 0) == 0, "ensure-failed", "EnsureLocalCapacity failed");
                }
                mc::transition();
                w.check();
            }
            log("VM destroyed");
        }
        MC_CHECK(Tr::alive() == 0, "released-late", "%d objects survive the VM", Tr::alive());
    }

    // Global and weak references beside the frames, as results of frames and sources of references
    void foreign(int depth) {
        {
            World w;
            for(int i = 0; i < depth; ++i) {
                int n = (int)w.objs.size();
                struct Op { int kind, o; };
                std::vector<Op> ops;
                if(n < 2) ops.push_back({0, 0});
                if(w.frames.size() < 4) ops.push_back({1, 0});
                for(int o = 0; o < n; ++o) {
                    if(w.count(o)) ops.push_back({2, o});
                    if(w.global[o]) { ops.push_back({3, o}); ops.push_back({4, o}); }
                    ops.push_back({5, o});
                    if(w.frames.size() > 1) {
                        if(w.count(o)) ops.push_back({6, o});
                        if(w.global[o]) ops.push_back({7, o});
                        ops.push_back({8, o});
                    }
                }
                if(w.frames.size() > 1) ops.push_back({9, 0});
                auto op = ops[choose((int)ops.size())];
                switch(op.kind) {
                case 0: {
                    log("object %d with a global and a weak reference", n);
                    int o = w.create(2);
                    w.global.push_back(w.env->NewGlobalRef(w.handle[o]));
                    w.weak.push_back(w.env->NewWeakGlobalRef(w.handle[o]));
                    break;
                }
                case 1: log("PushLocalFrame"); w.push(2); break;
                case 2: log("DeleteLocalRef object %d", op.o); w.del(op.o); break;
                case 3: log("DeleteGlobalRef object %d", op.o); w.env->DeleteGlobalRef(w.global[op.o]); w.global[op.o] = nullptr; break;
                case 4: log("NewLocalRef of global reference to %d", op.o); w.dupForeign(op.o, false); break;
                case 5: log("NewLocalRef of weak reference to %d", op.o); w.dupForeign(op.o, true); break;
                case 6: log("PopLocalFrame local reference to %d", op.o); w.pop(op.o); break;
                case 7: log("PopLocalFrame global reference to %d", op.o); w.popForeign(op.o, false); break;
                case 8: log("PopLocalFrame weak reference to %d", op.o); w.popForeign(op.o, true); break;
                case 9: log("PopLocalFrame"); w.pop(-1); break;
                }
                mc::transition();
                w.check();
                for(int o = 0; o < (int)w.objs.size(); ++o) {
                    MC_CHECK(w.env->IsSameObject(w.weak[o], nullptr) == w.objs[o].expired(), "weak", "the weak reference does not follow object %d", o);
                    if(w.global[o]) MC_CHECK(unwrap<Tr>(w.env, w.global[o]) == w.objs[o].lock() && w.env->GetObjectRefType(w.global[o]) == JNIGlobalRefType, "global", "the global reference changed");
                }
                MC_CHECK(!w.env->ExceptionCheck(), "exception", "an exception is pending");
            }
        }
        MC_CHECK(Tr::alive() == 0, "released-late", "%d objects survive the VM", Tr::alive());
    }
    // Frames of every size: fill, partially delete, pop with and without a result, reuse
    void sweep(int max) {
        {
            World w;
            int n = chooseSize(max);
            int outer = choose(3);
            static const int caps[] = {0, 1, 16, 1000};
            int cap = caps[choose(4)];
            int where = choose(4), result = choose(3), depth = choose(2) ? 9 : 1, again = choose(2);
            log("n=%d outer=%d cap=%d delete=%d result=%d depth=%d again=%d", n, outer, cap, where, result, depth, again);
            for(int i = 0; i < outer; ++i) w.create(2);
            w.check();
            for(int d = 0; d < depth; ++d) {
                w.push(cap);
                size_t first = w.objs.size();
                for(int i = 0; i < n; ++i) { w.create(2); mc::transition(); }
                w.check();
                if(n) {
                    int o = (int)first + (where == 1 ? 0 : where == 2 ? n / 2 : n - 1);
                    if(where) { w.del(o); w.check(); }
                }
            }
            while(w.frames.size() > 1) {
                int res = -1;
                auto& f = w.frames.back();
                if(result == 1 && !f.empty()) res = f.front();
                if(result == 2 && outer) res = 0;
                w.pop(res);
                mc::transition();
                w.check();
            }
            if(again) {
                w.push(0);
                for(int i = 0; i < n; ++i) { w.create(2); mc::transition(); }
                w.check();
                w.pop(-1);
                w.check();
            }
        }
        MC_CHECK(Tr::alive() == 0, "released-late", "%d objects survive the VM", Tr::alive());
    }
    // More references than anyone asked room for
    void large() {
        {
            World w;
            static const int sizes[] = { 250, 300, 513, 700, 1100, 2100 };
            int n = sizes[choose(mc::bound(5, 3, 6, 5))], frame = choose(3), order = choose(3);
            log("%d references, frame %d, order %d", n, frame, order);
            if(frame) w.push(frame == 1 ? 0 : 16);
            w.create(0);
            for(int i = 1; i < n; ++i) {
                if(i % 5 == 4) w.dup(i / 2, i % 2 ? 0 : 4);
                w.create(i % 3);
                mc::transition();
            }
            w.check();
            for(int i = 0; i < n; i += 3) {
                int o = order == 0 ? i : order == 1 ? n - 1 - i : i * 7 % n;
                if(w.count(o)) w.del(o);
                mc::transition();
            }
            w.check();
            if(frame) { auto r = w.reachable(); w.pop(r.empty() ? -1 : r[r.size() / 2]); w.check(); }
        }
        MC_CHECK(Tr::alive() == 0, "released-late", "%d objects survive the VM", Tr::alive());
    }
    // Many nested frames, each holding one reference to the same or an own object
    void nested(int max) {
        {
            World w;
            int n = chooseSize(max), mode = choose(3);
            log("%d frames, mode %d", n, mode);
            w.create(2);
            for(int i = 0; i < n; ++i) {
                w.push(i % 3);
                if(mode == 0) w.create(2);
                if(mode == 1) w.dup(0, 0);
                if(mode == 2 && i % 2) w.dup(0, 0);
                mc::transition();
            }
            w.check();
            for(int i = 0; i < n; ++i) {
                w.pop(i % 2 ? 0 : -1);
                mc::transition();
                if(i < 20 || i % 16 == 0) w.check();
            }
            w.check();
        }
        MC_CHECK(Tr::alive() == 0, "released-late", "%d objects survive the VM", Tr::alive());
    }
}

static int init = [] {
    mc::scenario("history", [] { history(mc::bound(8, 6, 10, 7), false); }, 3);
    mc::scenario("producers", [] { history(mc::bound(5, 4, 6, 5), true); }, 2);
    mc::scenario("other-handles", [] { foreign(mc::bound(7, 5, 8, 6)); }, 3);
    mc::scenario("frame-sizes", [] { sweep(mc::bound(129, 33, 513, 129)); }, 2);
    mc::scenario("many-references", large, 1);
    mc::scenario("frame-depth", [] { nested(mc::bound(257, 65, 1025, 257)); }, 2);
    return 0;
}();
