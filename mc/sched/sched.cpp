// Runtime and explorer of the schedules.
//
// The code under test and the harness are compiled with -fsanitize=thread, but this file takes the place of
// the sanitizer's runtime: every memory access, atomic operation, mutex, once and guard of a static variable
// arrives here. Real threads run one at a time; at every operation on a mutex, guard or atomic the next thread
// is a decision. Each execution is a process of its own, forked from a common state, that follows a list of
// decisions and takes the default (no preemption) after the last of them. The explorer enumerates the lists up
// to the preemption bound. Independently of the decisions a vector clock race detector checks every access, so
// that decisions at synchronization operations cover all interleavings as long as there is no race.
#undef _FORTIFY_SOURCE
#include "sched.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" {
    void* __libc_malloc(size_t);
    void __libc_free(void*);
    void* __libc_calloc(size_t, size_t);
    void* __libc_realloc(void*, size_t);
    void* __libc_memalign(size_t, size_t);
}

namespace {
    constexpr int MAXT = 4; // the main thread and three others
    constexpr int MAXSTEPS = 12000, MAXOBJ = 8192, MAXDEV = 200, MAXSTACK = 48;
    enum Op : uint8_t { START, LOCK, TRYLOCK, RDLOCK, WRLOCK, COND, GUARD, ONCE, ATOMIC, ATOMICREAD, REFADD, REFDEC, YIELD, PAUSE, JOIN, FINISH, CHOOSE };
    const char* opname[] = { "start", "lock", "trylock", "rdlock", "wrlock", "wait", "static", "once", "atomic", "load", "ref+", "ref-", "yield", "pause", "join", "finish", "choose" };

    typedef uint32_t VC[MAXT];
    struct Stack { char title[160]; int n; void* pc[MAXSTACK]; };
    struct Step { uint8_t cur, chosen, mask, op, n; bool curEnabled; uint16_t spare; uint32_t obj; uint64_t hash; void* pc; };
    enum { F_WRITTEN = 1, F_EVENT = 2 };
    struct ObjInfo { uint8_t touch, flags; };
    struct Result {
        std::atomic<int> nsteps, nobj, failed, done;
        Step steps[MAXSTEPS];
        ObjInfo objs[MAXOBJ];
        char key[96], msg[3000], error[512];
        int nstacks;
        Stack stacks[8];
        int loglen;
        char log[65536];
    };
    struct Dev { uint16_t step; uint8_t choice; };
    struct Item { uint16_t n, preempt; uint16_t scen; Dev d[MAXDEV]; };

    struct Thread {
        int id;
        Op op;
        void* obj;
        bool signalled, finished, pausing;
        uintptr_t lo, hi; // its stack and thread local variables
        VC vc;
        uint64_t hash;
        std::atomic<int> go;
        int depth;
        void* stack[512];
        pthread_t real;
        std::function<void()>* body;
        int quiet; // consecutive decisions without a switch
        int noswitch;
        int firsts; // objects it used first
    };
    struct Obj { void* addr; uint32_t idx; VC vc; uint64_t hash; };
    struct Cell { uintptr_t key; uint8_t freed; uint32_t w[MAXT - 1][8], r[MAXT - 1][8]; void *wpc[MAXT - 1], *rpc[MAXT - 1]; };

    struct Scen { std::string name; std::function<void()> body; int q, t; };
    std::vector<Scen>& scens() { static std::vector<Scen> s; return s; }
    bool g_thorough;
    int g_workers = 8;

    // State of one execution
    Thread th[MAXT];
    __thread Thread* me;
    __thread int inrt;
    int nthreads = 1;
    int phase; // 1: threads run, 2: after that
    bool active; // within an execution
    Result* res;
    Item item;
    int nextdev;
    bool verbose;
    char* stacks[MAXT];
    constexpr size_t STACKSIZE = 1 << 20;
    pthread_key_t endkey;

    struct Rt { Rt() { inrt++; } ~Rt() { inrt--; } };

    inline uint64_t mix(uint64_t h, uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 33);
    }

    // Objects: everything with a vector clock
    constexpr int OBJSLOTS = 1 << 15;
    Obj objtab[MAXOBJ];
    uint16_t objidx[OBJSLOTS];
    int nobjs;
    [[noreturn]] void broken(const char* what) {
        if(res) snprintf(res->error, sizeof res->error, "%s", what);
        else fprintf(stderr, "sched: %s\n", what);
        _exit(3);
    }
    Obj& object(void* a) {
        uint32_t h = (uint32_t)(mix(1, (uintptr_t)a) & (OBJSLOTS - 1));
        while(objidx[h]) {
            Obj& o = objtab[objidx[h] - 1];
            if(o.addr == a) return o;
            h = (h + 1) & (OBJSLOTS - 1);
        }
        if(nobjs + 1 >= MAXOBJ) broken("too many synchronization objects");
        Obj& o = objtab[nobjs];
        o.addr = a;
        o.idx = nobjs;
        o.hash = me ? mix(me->hash + me->id, ++me->firsts) : 0; // the same for the same history of the thread
        objidx[h] = (uint16_t)++nobjs;
        return o;
    }
    void touch(Obj& o, int flags) {
        if(phase != 1 || !res) return;
        res->objs[o.idx].touch |= 1 << me->id;
        res->objs[o.idx].flags |= flags;
    }
    void acquire(Obj& o) { for(int i = 0; i < MAXT; ++i) me->vc[i] = std::max(me->vc[i], o.vc[i]); }
    void release(Obj& o) {
        for(int i = 0; i < MAXT; ++i) o.vc[i] = std::max(o.vc[i], me->vc[i]);
        me->vc[me->id]++;
    }
    void event(Obj& o, int op) { me->hash = o.hash = mix(mix(mix(me->hash, o.hash), op), me->id); }

    int copyStack(Thread* t, void** out, void* pc) {
        int n = 0;
        if(pc) out[n++] = pc;
        for(int i = std::min(t->depth, 512) - 1; i >= 0 && n < MAXSTACK; --i) out[n++] = t->stack[i];
        return n;
    }
    void addStack(Thread* t, void* pc, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void addStack(Thread* t, void* pc, const char* fmt, ...) {
        if(!res || res->nstacks >= 8) return;
        Stack& s = res->stacks[res->nstacks++];
        va_list l;
        va_start(l, fmt);
        vsnprintf(s.title, sizeof s.title, fmt, l);
        va_end(l);
        if(t) s.n = copyStack(t, s.pc, pc);
        else { s.n = 1; s.pc[0] = pc; }
    }
    [[noreturn]] void vfailed(const char* key, const char* fmt, va_list l) {
        inrt++;
        if(res && !res->failed) {
            snprintf(res->key, sizeof res->key, "%s", key);
            vsnprintf(res->msg, sizeof res->msg, fmt, l);
            if(me) addStack(me, nullptr, "in thread %d", me->id);
            res->failed = 1;
        } else if(!res) {
            vfprintf(stderr, fmt, l);
        }
        _exit(5);
    }
    [[noreturn]] void failed(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void failed(const char* key, const char* fmt, ...) {
        va_list l;
        va_start(l, fmt);
        vfailed(key, fmt, l);
    }

    // Scheduler
    void futexWait(std::atomic<int>* a) {
        while(!a->load(std::memory_order_acquire)) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        a->store(0, std::memory_order_relaxed);
    }
    void futexWake(std::atomic<int>* a) {
        a->store(1, std::memory_order_release);
        syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
    bool canLock(pthread_mutex_t* m, int id) {
        return !m->__data.__owner || (m->__data.__owner == id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
    }
    bool enabled(Thread& t) {
        if(t.finished) return false;
        switch(t.op) {
        case LOCK: return canLock((pthread_mutex_t*)t.obj, t.id);
        case RDLOCK: return !((pthread_rwlock_t*)t.obj)->__data.__cur_writer;
        case WRLOCK: return !((pthread_rwlock_t*)t.obj)->__data.__cur_writer && !((pthread_rwlock_t*)t.obj)->__data.__readers;
        case COND: return t.signalled;
        case GUARD: return !((unsigned char*)t.obj)[1];
        case ONCE: return *(volatile int*)t.obj != 1;
        case JOIN:
            for(int i = 1; i < nthreads; ++i) if(!th[i].finished) return false;
            return true;
        default: return true;
        }
    }
    uint64_t stateHash() {
        uint64_t h = 0;
        for(int i = 0; i < nthreads; ++i) h += mix(th[i].hash, (th[i].finished ? 100 : 1) + i);
        return h;
    }
    int forced(int n) {
        int i = n;
        if(nextdev < item.n && item.d[nextdev].step == i) return item.d[nextdev++].choice;
        return -1;
    }
    Step& newStep() {
        int n = res->nsteps.load(std::memory_order_relaxed);
        if(n >= MAXSTEPS) failed("endless", "more than %d synchronization operations", MAXSTEPS);
        Step& s = res->steps[n];
        memset((void*)&s, 0, sizeof s);
        return s;
    }
    // Decides which thread is next. The current one has announced its operation
    void decide() {
        Thread* t = me;
        Step& s = newStep();
        int n = res->nsteps.load(std::memory_order_relaxed);
        s.cur = t->id;
        s.op = t->finished ? FINISH : t->op;
        s.pc = t->depth ? t->stack[std::min(t->depth, 512) - 1] : nullptr;
        for(int i = 0; i < nthreads; ++i) if(enabled(th[i])) s.mask |= 1 << i;
        bool own = s.mask >> t->id & 1;
        s.curEnabled = own && !t->pausing;
        s.hash = stateHash();
        s.obj = UINT32_MAX;
        if(t->obj && !t->finished && t->op != JOIN && t->op != START) {
            Obj& o = object(t->obj);
            s.obj = o.idx;
            touch(o, t->op == ATOMICREAD || t->op == REFADD || t->op == REFDEC ? 0 : F_WRITTEN);
        }
        if(!s.mask) {
            for(int i = 0; i < nthreads; ++i) {
                if(th[i].finished || i == 0) continue;
                int owner = th[i].op == LOCK ? ((pthread_mutex_t*)th[i].obj)->__data.__owner - 1 : -1;
                addStack(&th[i], nullptr, "thread %d: %s of object %d%s%s", i, opname[th[i].op], th[i].obj ? (int)object(th[i].obj).idx : -1,
                    owner >= 0 ? ", held by thread " : "", owner >= 0 ? std::to_string(owner).c_str() : "");
            }
            failed("deadlock", "no thread can continue");
        }
        int c = forced(n);
        if(c >= 0) {
            if(!(s.mask >> c & 1)) broken("divergence: the thread to run is not enabled");
        } else if(s.curEnabled && ++t->quiet < 3000) {
            c = t->id;
        } else {
            c = -1;
            for(int k = 1; k <= nthreads; ++k) {
                int i = (t->id + k) % nthreads;
                if(s.mask >> i & 1) { c = i; break; }
            }
        }
        s.chosen = (uint8_t)c;
        res->nsteps.store(n + 1, std::memory_order_relaxed);
        if(c == t->id) return;
        t->quiet = 0;
        th[c].quiet = 0;
        bool over = t->finished;
        if(over) me = nullptr;
        futexWake(&th[c].go);
        if(!over) futexWait(&t->go);
    }
    void point(Op op, void* obj, bool pausing = false) {
        if(!me || !active) return;
        me->op = op;
        me->obj = obj;
        me->pausing = pausing;
        if(phase == 1) {
            if(!me->noswitch || !enabled(*me)) decide();
            else if(obj && op != JOIN) touch(object(obj), op == ATOMICREAD || op == REFADD || op == REFDEC ? 0 : F_WRITTEN);
        } else if(!enabled(*me)) {
            addStack(me, nullptr, "%s", opname[op]);
            failed("deadlock", "the only thread waits for itself");
        }
        me->pausing = false;
    }

    // Memory
    constexpr int CELLSLOTS = 1 << 17;
    Cell* celltab;
    int ncells;
    bool anyfreed;
    constexpr int MAXCELLS = 1 << 16;
    uint32_t* cellidx;
    Cell* cell(uintptr_t k, bool create) {
        // Neighbours stay together, so that few pages are touched
        uint32_t h = (uint32_t)(((mix(7, k >> 9) << 6) + (k >> 3 & 63)) & (CELLSLOTS - 1));
        while(cellidx[h]) {
            Cell* c = celltab + cellidx[h] - 1;
            if(c->key == k) return c;
            h = (h + 1) & (CELLSLOTS - 1);
        }
        if(!create) return nullptr;
        if(ncells + 1 >= MAXCELLS) broken("too much memory is accessed");
        Cell* c = celltab + ncells;
        c->key = k;
        cellidx[h] = ++ncells;
        return c;
    }
    [[noreturn]] void useAfterFree(uintptr_t a, bool write, Cell* c, void* pc) {
        addStack(me, pc, "%s of freed memory by thread %d", write ? "write" : "read", me->id);
        for(int u = 0; u < MAXT - 1; ++u) if(c->wpc[u]) { addStack(nullptr, c->wpc[u], "freed or written before by thread %d", u + 1); break; }
        failed("use-after-free", "freed memory is accessed");
    }
    void race(Cell* c, int u, bool uwrite, bool write, void* pc) {
        addStack(me, pc, "%s by thread %d", write ? "write" : "read", me->id);
        addStack(nullptr, uwrite ? c->wpc[u] : c->rpc[u], "unsynchronized %s by thread %d", uwrite ? "write" : "read", u + 1);
        failed("data-race", "two threads access the same memory without synchronization, one of them writes");
    }
    inline void access(uintptr_t a, size_t n, bool write, void* pc) {
        if(!phase || (phase == 2 && !anyfreed)) return;
        if(inrt || !me || !n) return;
        Thread* t = me;
        if(a >= t->lo && a < t->hi) return;
        inrt++;
        int u0 = t->id - 1;
        for(uintptr_t k = a & ~7ull; k < a + n; k += 8) {
            unsigned b0 = k < a ? (unsigned)(a - k) : 0, b1 = k + 8 > a + n ? (unsigned)(a + n - k) : 8;
            Cell* c = cell(k, phase == 1);
            if(!c) continue;
            if(c->freed) useAfterFree(a, write, c, pc);
            if(phase != 1 || u0 < 0) continue;
            uint32_t e = t->vc[t->id];
            for(int u = 0; u < nthreads - 1; ++u) {
                if(u == u0) continue;
                for(unsigned b = b0; b < b1; ++b) {
                    if(c->w[u][b] > t->vc[u + 1]) race(c, u, true, write, pc);
                    if(write && c->r[u][b] > t->vc[u + 1]) race(c, u, false, write, pc);
                }
            }
            auto& x = write ? c->w[u0] : c->r[u0];
            for(unsigned b = b0; b < b1; ++b) x[b] = e;
            (write ? c->wpc : c->rpc)[u0] = pc;
        }
        inrt--;
    }
    // Freed memory is not used again
    bool quarantine(void* p, void* pc) {
        if(phase != 1 || inrt || !me || me->id == 0) return false;
        uintptr_t a = (uintptr_t)p;
        size_t n = malloc_usable_size(p);
        if(Cell* c = cell(a & ~7ull, false)) if(c->freed) {
            inrt++;
            addStack(me, pc, "second release of the memory");
            failed("double-free", "memory is released twice");
        }
        anyfreed = true;
        // Blocks are exclusive: as a write of what has been accessed before
        inrt++;
        for(uintptr_t k = a; k < a + n; k += 8) {
            Cell* c = cell(k, n <= 512);
            if(!c) continue;
            int u0 = me->id - 1;
            for(int u = 0; u < nthreads - 1; ++u) {
                if(u == u0) continue;
                for(unsigned b = 0; b < 8; ++b) {
                    if(c->w[u][b] > me->vc[u + 1]) race(c, u, true, true, pc);
                    if(c->r[u][b] > me->vc[u + 1]) race(c, u, false, true, pc);
                }
            }
            c->wpc[u0] = pc;
            c->freed = 1;
        }
        inrt--;
        return true;
    }
    void onThreadEnd(void*) {
        inrt++;
        if(!me) return;
        me->finished = true;
        me->op = FINISH;
        me->obj = nullptr;
        me->vc[me->id]++;
        decide();
        inrt--;
    }
    void* threadMain(void* p) {
        Thread* t = (Thread*)p;
        me = t;
        inrt = 1;
        futexWait(&t->go);
        pthread_setspecific(endkey, t);
        inrt = 0;
        try {
            (*t->body)();
        } catch(const std::exception& e) {
            failed("unexpected-exception", "exception escaped: %s", e.what());
        } catch(...) {
            failed("unexpected-exception", "exception escaped");
        }
        return nullptr;
    }
    void onSignal(int sig) {
        if(me) addStack(me, nullptr, "thread %d", me->id);
        else addStack(nullptr, nullptr, "unknown thread");
        if(res && !res->failed) {
            snprintf(res->key, sizeof res->key, "crash");
            snprintf(res->msg, sizeof res->msg, "signal %d", sig);
            res->failed = 1;
        }
        _exit(5);
    }
}

void sched::parallel(std::vector<std::function<void()>> bodies) {
    inrt++;
    nthreads = 1 + (int)bodies.size();
    if(nthreads > MAXT || phase) broken("parallel");
    Thread* m = me;
    for(int i = 1; i < nthreads; ++i) {
        Thread& t = th[i];
        t.id = i;
        t.op = START;
        t.hash = i;
        t.body = &bodies[i - 1];
        t.lo = (uintptr_t)stacks[i];
        t.hi = t.lo + STACKSIZE;
        memcpy(t.vc, m->vc, sizeof(VC));
        t.vc[i] = 1;
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstack(&a, stacks[i], STACKSIZE);
        if(pthread_create(&t.real, &a, threadMain, &t)) broken("pthread_create");
        pthread_attr_destroy(&a);
    }
    m->vc[0]++;
    phase = 1;
    point(JOIN, nullptr);
    for(int i = 1; i < nthreads; ++i) {
        pthread_join(th[i].real, nullptr);
        for(int k = 0; k < MAXT; ++k) m->vc[k] = std::max(m->vc[k], th[i].vc[k]);
    }
    phase = 2;
    inrt--;
}
int sched::choose(int n) {
    if(n <= 1) return 0;
    Rt r;
    Step& s = newStep();
    int i = res->nsteps.load(std::memory_order_relaxed);
    s.cur = (uint8_t)me->id;
    s.op = CHOOSE;
    s.n = (uint8_t)n;
    s.obj = UINT32_MAX;
    s.hash = stateHash();
    int c = forced(i);
    if(c >= n) broken("divergence: choice");
    if(c < 0) c = 0;
    s.chosen = (uint8_t)c;
    me->hash = mix(mix(me->hash, 77), c);
    res->nsteps.store(i + 1, std::memory_order_relaxed);
    return c;
}
void sched::yield() {
    if(!me || phase != 1) return;
    Rt r;
    point(YIELD, nullptr);
    me->hash = mix(me->hash, YIELD);
}
sched::Quiet::Quiet() { if(me) me->noswitch++; }
sched::Quiet::~Quiet() { if(me) me->noswitch--; }
namespace {
    // Shared by all executions
    struct Memo { std::atomic<int> lock; int n; struct { uint64_t key; int n; uint64_t v[62]; } e[1 << 14]; };
    Memo* memotab;
}
std::vector<uint64_t> sched::memo(uint64_t key, std::function<std::vector<uint64_t>()> compute) {
    if(!key) key = 1;
    auto get = [&](std::vector<uint64_t>* put) -> std::vector<uint64_t> {
        Rt r;
        int e = 0;
        while(!memotab->lock.compare_exchange_weak(e, 1)) { e = 0; syscall(SYS_sched_yield); }
        std::vector<uint64_t> v;
        for(size_t h = mix(3, key) & 0x3fff;; h = (h + 1) & 0x3fff) {
            auto& x = memotab->e[h];
            if(x.key == key) { v.assign(x.v, x.v + x.n); break; }
            if(x.key) continue;
            if(put && put->size() <= 62 && memotab->n < 15000) {
                memotab->n++;
                x.key = key;
                x.n = (int)put->size();
                std::copy(put->begin(), put->end(), x.v);
            }
            break;
        }
        memotab->lock.store(0);
        return v;
    };
    auto v = get(nullptr);
    if(v.empty()) {
        v = compute();
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        get(&v);
    }
    return v;
}
int sched::self() { return me ? me->id : -1; }
bool sched::thorough() { return g_thorough; }
void sched::fail(const char* key, const char* fmt, ...) {
    va_list l;
    va_start(l, fmt);
    vfailed(key, fmt, l);
}
void sched::log(const char* fmt, ...) {
    if(!verbose) return;
    Rt r;
    char b[1024];
    va_list l;
    va_start(l, fmt);
    vsnprintf(b, sizeof b, fmt, l);
    va_end(l);
    int n = snprintf(res->log + res->loglen, sizeof res->log - res->loglen, "%d|%d: %s\n", (int)res->nsteps, me ? me->id : -1, b);
    res->loglen = std::min(res->loglen + n, (int)sizeof res->log - 1);
}
void sched::scenario(const char* name, std::function<void()> body, int q, int t) { scens().push_back({name, body, q, t}); }

// ---- Synchronization of the C library

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    if(!active || !me) { m->__data.__owner = 0x7fff; m->__data.__count++; return 0; }
    Rt r;
    if((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP && m->__data.__owner == me->id + 1) return EDEADLK;
    if(m->__data.__owner == 0x7fff) m->__data.__owner = 0;
    point(LOCK, m);
    m->__data.__owner = me->id + 1;
    m->__data.__count++;
    Obj& o = object(m);
    event(o, LOCK);
    acquire(o);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if(!active || !me) { m->__data.__owner = 0x7fff; m->__data.__count++; return 0; }
    Rt r;
    point(TRYLOCK, m);
    Obj& o = object(m);
    event(o, TRYLOCK);
    if(!canLock(m, me->id)) return EBUSY;
    m->__data.__owner = me->id + 1;
    m->__data.__count++;
    acquire(o);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if(!active || !me) { if(m->__data.__count && !--m->__data.__count) m->__data.__owner = 0; return 0; }
    Rt r;
    if(m->__data.__owner != me->id + 1) {
        // Undefined for most kinds of mutexes
        if((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP || (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EPERM;
        addStack(me, nullptr, "unlock");
        failed("foreign-unlock", "a mutex is unlocked by a thread that does not hold it");
    }
    if(--m->__data.__count == 0) {
        m->__data.__owner = 0;
        release(object(m));
    }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if(!active || !me) { return 0; }
    Rt r;
    point(RDLOCK, m);
    m->__data.__readers++;
    Obj& o = object(m);
    event(o, RDLOCK);
    acquire(o);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if(!active || !me) { return 0; }
    Rt r;
    point(WRLOCK, m);
    m->__data.__cur_writer = me->id + 1;
    Obj& o = object(m);
    event(o, WRLOCK);
    acquire(o);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    if(!active || !me) { return 0; }
    Rt r;
    point(TRYLOCK, m);
    Obj& o = object(m);
    event(o, TRYLOCK);
    if(m->__data.__cur_writer) return EBUSY;
    m->__data.__readers++;
    acquire(o);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    if(!active || !me) { return 0; }
    Rt r;
    point(TRYLOCK, m);
    Obj& o = object(m);
    event(o, TRYLOCK);
    if(m->__data.__cur_writer || m->__data.__readers) return EBUSY;
    m->__data.__cur_writer = me->id + 1;
    acquire(o);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if(!active || !me) { return 0; }
    Rt r;
    if(m->__data.__cur_writer == me->id + 1) m->__data.__cur_writer = 0;
    else if(m->__data.__readers) m->__data.__readers--;
    else failed("foreign-unlock", "a lock that is not held is released");
    // Readers are not ordered among each other, but a writer after all of them: the object keeps both
    release(object(m));
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if(!active || !me) return 0;
    Rt r;
    unsigned count = m->__data.__count;
    m->__data.__count = 1;
    pthread_mutex_unlock(m);
    me->signalled = false;
    point(COND, c);
    Obj& o = object(c);
    event(o, COND);
    pthread_mutex_lock(m);
    m->__data.__count = count;
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_broadcast(pthread_cond_t* c) {
    if(!active || !me) return 0;
    Rt r;
    event(object(c), COND);
    for(int i = 0; i < nthreads; ++i) if(th[i].op == COND && th[i].obj == c) th[i].signalled = true;
    return 0;
}
// Spurious wakeups are allowed: all waiting threads look again
int pthread_cond_signal(pthread_cond_t* c) { return pthread_cond_broadcast(c); }
int pthread_once(pthread_once_t* once, void (*f)(void)) {
    volatile int* v = (volatile int*)once;
    if(!active || !me) { if(*v != 2) { *v = 2; f(); } return 0; }
    inrt++;
    if(*v != 2) point(ONCE, once);
    Obj& o = object(once);
    if(*v != 2) {
        event(o, ONCE);
        *v = 1;
        inrt--;
        try { f(); } catch(...) { *v = 0; throw; }
        inrt++;
        *v = 2;
        release(o);
    } else acquire(o);
    inrt--;
    return 0;
}
int __cxa_guard_acquire(long long* g) {
    auto b = (unsigned char*)g;
    if(!active || !me) { if(b[0]) return 0; b[1] = 1; return 1; }
    Rt r;
    if(b[0]) { acquire(object(g)); return 0; }
    point(GUARD, g);
    Obj& o = object(g);
    event(o, GUARD);
    acquire(o);
    if(b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) {
    auto b = (unsigned char*)g;
    b[0] = 1;
    b[1] = 0;
    if(active && me) { Rt r; release(object(g)); }
}
void __cxa_guard_abort(long long* g) {
    ((unsigned char*)g)[1] = 0;
    if(active && me) { Rt r; release(object(g)); }
}
int sched_yield() {
    if(!active || !me || phase != 1) return 0;
    Rt r;
    point(PAUSE, nullptr, true);
    return 0;
}
int usleep(useconds_t) { return sched_yield(); }
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }

// ---- Memory

void* malloc(size_t n) { return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void free(void* p) {
    if(p && phase == 1 && quarantine(p, __builtin_return_address(0))) return;
    __libc_free(p);
}
void* realloc(void* p, size_t n) {
    if(!p || phase != 1 || inrt) return __libc_realloc(p, n);
    void* q = __libc_malloc(n);
    memcpy(q, p, std::min(n, malloc_usable_size(p)));
    free(p);
    return q;
}
void* memcpy(void* d, const void* s, size_t n) {
    if(phase == 1 && !inrt) {
        access((uintptr_t)s, n, false, __builtin_return_address(0));
        access((uintptr_t)d, n, true, __builtin_return_address(0));
    }
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n) {
    if(phase == 1 && !inrt) {
        access((uintptr_t)s, n, false, __builtin_return_address(0));
        access((uintptr_t)d, n, true, __builtin_return_address(0));
    }
    auto x = (char*)d;
    auto y = (const char*)s;
    if(x <= y || x >= y + n) { void* a = d; asm volatile("rep movsb" : "+D"(a), "+S"(s), "+c"(n) : : "memory"); }
    else while(n--) { x[n] = y[n]; asm volatile("" : : : "memory"); }
    return d;
}
void* memset(void* d, int v, size_t n) {
    if(phase == 1 && !inrt) access((uintptr_t)d, n, true, __builtin_return_address(0));
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
int memcmp(const void* a, const void* b, size_t n) {
    if(phase == 1 && !inrt) {
        access((uintptr_t)a, n, false, __builtin_return_address(0));
        access((uintptr_t)b, n, false, __builtin_return_address(0));
    }
    auto x = (const unsigned char*)a, y = (const unsigned char*)b;
    for(size_t i = 0; i < n; ++i) if(x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
size_t strlen(const char* s) {
    size_t n = 0;
    while(s[n]) { n++; asm volatile("" : : : "memory"); }
    if(phase == 1 && !inrt) access((uintptr_t)s, n + 1, false, __builtin_return_address(0));
    return n;
}
void* mc_memchr(const void* s, int c, size_t n) asm("memchr");
void* mc_memchr(const void* s, int c, size_t n) {
    auto x = (const unsigned char*)s;
    size_t i = 0;
    while(i < n && x[i] != (unsigned char)c) i++;
    if(phase == 1 && !inrt) access((uintptr_t)s, i < n ? i + 1 : n, false, __builtin_return_address(0));
    return i < n ? (void*)(x + i) : nullptr;
}
int strcmp(const char* a, const char* b) {
    size_t i = 0;
    while(a[i] && a[i] == b[i]) i++;
    if(phase == 1 && !inrt) {
        access((uintptr_t)a, i + 1, false, __builtin_return_address(0));
        access((uintptr_t)b, i + 1, false, __builtin_return_address(0));
    }
    return (unsigned char)a[i] - (unsigned char)b[i];
}

// ---- What the compiler inserts

void __tsan_init() {}
void __tsan_func_entry(void* pc) { if(Thread* t = me) { if(t->depth < 512 && t->depth >= 0) t->stack[t->depth] = pc; t->depth++; } }
void __tsan_func_exit() { if(Thread* t = me) if(t->depth > 0) t->depth--; }
#define RW(n) \
    void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, __builtin_return_address(0)); } \
    void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); } \
    void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, __builtin_return_address(0)); } \
    void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); } \
    void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, __builtin_return_address(0)); } \
    void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); } \
    void __tsan_unaligned_volatile_read##n(void* a) { access((uintptr_t)a, n, false, __builtin_return_address(0)); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, long n) { access((uintptr_t)a, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* a, long n) { access((uintptr_t)a, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void** a, void* v) { if(*a != v) access((uintptr_t)a, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, __builtin_return_address(0)); }

int __mc_ref_add(void* a, int d) {
    int* p = (int*)a;
    if(!active || !me) return __atomic_fetch_add(p, d, __ATOMIC_ACQ_REL);
    Rt r;
    if(phase) if(Cell* c = cell((uintptr_t)a & ~7ull, false)) if(c->freed) useAfterFree((uintptr_t)a, true, c, __builtin_return_address(0));
    Obj& o = object(a);
    if(d > 0) {
        touch(o, 0);
        int v = *p;
        *p = v + d;
        return v;
    }
    point(REFDEC, a);
    event(o, REFDEC);
    int v = *p;
    *p = v + d;
    release(o);
    if(v + d == 0) {
        acquire(o);
        touch(o, F_EVENT);
    }
    return v;
}
}
namespace {
    bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
    bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
    template<class F> auto atomic(const volatile void* a, bool write, int mo, F f, void* pc) -> decltype(f()) {
        if(!active || !me) return f();
        inrt++;
        if(phase) if(Cell* c = cell((uintptr_t)a & ~7ull, false)) if(c->freed) useAfterFree((uintptr_t)a, write, c, pc);
        point(write ? ATOMIC : ATOMICREAD, (void*)a);
        Obj& o = object((void*)a);
        if(write) event(o, ATOMIC);
        else me->hash = mix(mix(me->hash, o.hash), ATOMICREAD);
        if(write) touch(o, F_EVENT);
        auto v = f();
        if(acq(mo)) acquire(o);
        if(write && rel(mo)) release(o);
        inrt--;
        return v;
    }
}
#define PC __builtin_return_address(0)
#define AT(bits, T) \
extern "C" { \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return atomic(a, false, mo, [&] { return __atomic_load_n(a, 5); }, PC); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomic(a, true, mo, [&] { __atomic_store_n(a, v, 5); return 0; }, PC); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return atomic(a, true, mo, [&] { return __atomic_exchange_n(a, v, 5); }, PC); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return atomic(a, true, mo, [&] { return __atomic_fetch_add(a, v, 5); }, PC); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return atomic(a, true, mo, [&] { return __atomic_fetch_sub(a, v, 5); }, PC); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return atomic(a, true, mo, [&] { return __atomic_fetch_and(a, v, 5); }, PC); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return atomic(a, true, mo, [&] { return __atomic_fetch_or(a, v, 5); }, PC); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return atomic(a, true, mo, [&] { return __atomic_fetch_xor(a, v, 5); }, PC); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return atomic(a, true, mo, [&] { return __atomic_fetch_nand(a, v, 5); }, PC); } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { return atomic(a, true, mo, [&] { return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); }, PC); } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { return atomic(a, true, mo, [&] { return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); }, PC); } \
}
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
namespace std {
    // Functions of the library that change the nodes of a tree
    struct _Rb_tree_node_base;
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept {
        typedef void (*F)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
        static F f = (F)dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
        access((uintptr_t)p, 32, true, PC);
        access((uintptr_t)&header, 32, true, PC);
        f(left, x, p, header);
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& header) noexcept {
        typedef _Rb_tree_node_base* (*F)(_Rb_tree_node_base*, _Rb_tree_node_base&);
        static F f = (F)dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
        access((uintptr_t)z, 32, true, PC);
        access((uintptr_t)&header, 32, true, PC);
        return f(z, header);
    }
    namespace __detail {
        struct _List_node_base { _List_node_base *_M_next, *_M_prev;
            void _M_hook(_List_node_base* pos) noexcept;
            void _M_unhook() noexcept;
            void _M_transfer(_List_node_base* first, _List_node_base* last) noexcept;
            void _M_reverse() noexcept; };
        void _List_node_base::_M_hook(_List_node_base* pos) noexcept {
            access((uintptr_t)this, 16, true, PC);
            access((uintptr_t)&pos->_M_prev, 8, true, PC);
            access((uintptr_t)&pos->_M_prev->_M_next, 8, true, PC);
            _M_next = pos;
            _M_prev = pos->_M_prev;
            pos->_M_prev->_M_next = this;
            pos->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept {
            access((uintptr_t)this, 16, false, PC);
            access((uintptr_t)&_M_next->_M_prev, 8, true, PC);
            access((uintptr_t)&_M_prev->_M_next, 8, true, PC);
            _M_prev->_M_next = _M_next;
            _M_next->_M_prev = _M_prev;
        }
    }
}

// ---- Explorer

namespace {
    constexpr size_t QUEUE = 1 << 17;
    constexpr size_t SEEN = 1 << 24;
    struct Shared {
        std::atomic<int> lock;
        std::atomic<long> top, active;
        std::atomic<uint64_t> execs, steps, decisions, pruned, states, maxsteps, dropped;
        std::atomic<int> stop; // 1: violation, 2: broken
        std::atomic<long> perScen[256];
        Item bad;
        Item samples[256];
        Item q[QUEUE];
        std::atomic<uint64_t> seen[SEEN];
    };
    Shared* sh;
    void lockq() { int e = 0; while(!sh->lock.compare_exchange_weak(e, 1)) { e = 0; syscall(SYS_sched_yield); } }
    void unlockq() { sh->lock.store(0); }
    bool insertSeen(uint64_t h) {
        if(!h) h = 1;
        size_t i = h & (SEEN - 1);
        for(int k = 0; k < 64; ++k, i = (i + 1) & (SEEN - 1)) {
            uint64_t v = sh->seen[i].load(std::memory_order_relaxed);
            if(v == h) return false;
            if(!v) {
                if(sh->seen[i].compare_exchange_strong(v, h)) return true;
                if(v == h) return false;
            }
        }
        return true; // full: explored again
    }
    volatile pid_t child;
    void onAlarm(int) { if(child > 0) kill(child, SIGKILL); }

    [[noreturn]] void runChild(int scen) {
        active = true;
        celltab = (Cell*)mmap(nullptr, sizeof(Cell) * MAXCELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        cellidx = (uint32_t*)mmap(nullptr, sizeof(uint32_t) * CELLSLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        me = &th[0];
        th[0].vc[0] = 1;
        try {
            scens()[scen].body();
        } catch(const std::exception& e) {
            failed("unexpected-exception", "exception escaped: %s", e.what());
        } catch(...) {
            failed("unexpected-exception", "exception escaped");
        }
        res->done = 1;
        _exit(0);
    }
    // 0: passed, 1: failed, 2: broken
    int runItem(const Item& it, Result* r, bool verb = false) {
        r->nsteps = r->nobj = r->failed = r->done = 0;
        r->nstacks = r->loglen = 0;
        r->key[0] = r->msg[0] = r->error[0] = 0;
        memset((void*)r->objs, 0, sizeof r->objs);
        item = it;
        nextdev = 0;
        res = r;
        pid_t p = fork();
        if(p == 0) {
            verbose = verb;
            runChild(it.scen);
        }
        child = p;
        struct itimerval v {};
        v.it_value.tv_sec = 40;
        setitimer(ITIMER_REAL, &v, nullptr);
        int st = 0;
        while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        child = 0;
        v.it_value.tv_sec = 0;
        setitimer(ITIMER_REAL, &v, nullptr);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && r->done) return 0;
        if(WIFEXITED(st) && WEXITSTATUS(st) == 5 && r->failed) return 1;
        if(WIFEXITED(st) && WEXITSTATUS(st) == 3) return 2;
        r->failed = 1;
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            snprintf(r->key, sizeof r->key, "hang");
            snprintf(r->msg, sizeof r->msg, "the execution does not end");
        } else {
            snprintf(r->key, sizeof r->key, "crash");
            snprintf(r->msg, sizeof r->msg, "status %x", st);
        }
        return 1;
    }
    int pb(int scen) { return g_thorough ? scens()[scen].t : scens()[scen].q; }
    bool expandable(const Step& s, const Result* r) {
        switch(s.op) {
        case ATOMIC: case ATOMICREAD: {
            auto& o = r->objs[s.obj];
            return (o.touch & (o.touch - 1)) && (o.flags & F_WRITTEN);
        }
        case REFADD: case REFDEC: {
            auto& o = r->objs[s.obj];
            return (o.touch & (o.touch - 1)) && (o.flags & F_EVENT);
        }
        default: return true;
        }
    }
    void worker(int id) {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        int ncpu = (int)sysconf(_SC_NPROCESSORS_ONLN);
        CPU_SET(id % (ncpu > 0 ? ncpu : 1), &cs);
        sched_setaffinity(0, sizeof cs, &cs);
        struct sigaction sa {};
        sa.sa_handler = onAlarm;
        sigaction(SIGALRM, &sa, nullptr);
        auto r = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::vector<Item> add;
        Item it;
        for(;;) {
            if(sh->stop) _exit(0);
            lockq();
            bool have = sh->top > 0;
            if(have) {
                it = sh->q[--sh->top];
                sh->active++;
            }
            bool over = !have && !sh->active;
            unlockq();
            if(over) _exit(0);
            if(!have) { syscall(SYS_nanosleep, (const struct timespec[]){{0, 200000}}, nullptr); continue; }
            int rc = runItem(it, r);
            sh->execs++;
            sh->perScen[it.scen]++;
            sh->samples[it.scen] = it;
            int n = r->nsteps;
            sh->steps += n;
            if((uint64_t)n > sh->maxsteps) sh->maxsteps = n;
            if(rc) {
                lockq();
                if(!sh->stop) { sh->bad = it; sh->stop = rc; }
                unlockq();
                _exit(0);
            }
            add.clear();
            int first = it.n ? it.d[it.n - 1].step + 1 : 0;
            int preempt = it.preempt, bound = pb(it.scen);
            for(int i = first; i < n; ++i) {
                Step& s = r->steps[i];
                uint64_t h = mix(s.hash, it.scen + 1);
                if(s.op == CHOOSE) {
                    for(int c = 1; c < s.n; ++c) {
                        Item x = it;
                        if(x.n == MAXDEV) { sh->dropped++; continue; }
                        x.d[x.n++] = {(uint16_t)i, (uint8_t)c};
                        add.push_back(x);
                    }
                    continue;
                }
                if(s.mask & (s.mask - 1)) sh->decisions++;
                for(int c = 0; c < MAXT; ++c) {
                    if(c == s.chosen || !(s.mask >> c & 1)) continue;
                    int cost = s.curEnabled && c != s.cur ? 1 : 0;
                    if(cost && !expandable(s, r)) continue;
                    if(preempt + cost > bound) continue;
                    if(!insertSeen(mix(mix(mix(h, s.cur), c), preempt + cost + 1000))) { sh->pruned++; continue; }
                    Item x = it;
                    if(x.n == MAXDEV) { sh->dropped++; continue; }
                    x.d[x.n++] = {(uint16_t)i, (uint8_t)c};
                    x.preempt += cost;
                    add.push_back(x);
                }
                if(insertSeen(mix(h, 5))) sh->states++;
            }
            lockq();
            for(auto& x : add) {
                if((size_t)sh->top >= QUEUE) { sh->dropped++; break; }
                sh->q[sh->top++] = x;
            }
            sh->active--;
            unlockq();
        }
    }
    std::string esc(const std::string& s) {
        std::string r = "\"";
        char b[8];
        for(unsigned char c : s) {
            if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if(c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }
    uintptr_t imageBase() {
        static uintptr_t base = 0;
        if(!base) dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* p) { *(uintptr_t*)p = i->dlpi_addr; return 1; }, &base);
        return base;
    }
    // Function and line of return addresses
    std::map<void*, std::string> symbolize(const std::set<void*>& pcs) {
        std::map<void*, std::string> m;
        if(pcs.empty()) return m;
        char exe[4096];
        ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1);
        if(l < 0) return m;
        exe[l] = 0;
        std::string cmd = std::string("addr2line -Cfse '") + exe + "'";
        for(auto p : pcs) { char b[32]; snprintf(b, sizeof b, " %lx", (unsigned long)((uintptr_t)p - 1 - imageBase())); cmd += b; }
        cmd += " 2>/dev/null";
        FILE* f = popen(cmd.c_str(), "r");
        if(!f) return m;
        char fn[4096], line[4096];
        for(auto p : pcs) {
            if(!fgets(fn, sizeof fn, f) || !fgets(line, sizeof line, f)) break;
            fn[strcspn(fn, "\n")] = 0;
            line[strcspn(line, "\n")] = 0;
            std::string s = fn;
            auto par = s.find('(');
            if(s.size() > 90) s = s.substr(0, std::min<size_t>(par, 90)) + "...";
            m[p] = s + " " + line;
        }
        pclose(f);
        return m;
    }
    std::string describe(const Item& it, Result* r) {
        std::set<void*> pcs;
        int n = r->nsteps;
        for(int k = 0; k < r->nstacks; ++k) pcs.insert(r->stacks[k].pc, r->stacks[k].pc + r->stacks[k].n);
        for(int i = 0; i < n; ++i) {
            auto& s = r->steps[i];
            if(s.op != CHOOSE && s.chosen != s.cur && s.pc) pcs.insert(s.pc);
        }
        auto names = symbolize(pcs);
        std::string t;
        char b[700];
        // Decisions that are not the default and all switches, with what the threads said in between
        int logpos = 0;
        auto logs = [&](int upto) {
            while(logpos < r->loglen) {
                int st = atoi(r->log + logpos);
                if(st > upto) break;
                char* e = strchr(r->log + logpos, '\n');
                if(!e) break;
                char* bar = strchr(r->log + logpos, '|');
                t += "    thread " + std::string(bar + 1, e) + "\n";
                logpos = (int)(e + 1 - r->log);
            }
        };
        for(int i = 0; i < n; ++i) {
            auto& s = r->steps[i];
            logs(i);
            if(s.op == CHOOSE) { snprintf(b, sizeof b, "step %d: choice %d of %d\n", i, s.chosen, s.n); t += b; continue; }
            if(s.chosen == s.cur) continue;
            snprintf(b, sizeof b, "step %d: thread %d %s (%s of object %d, in %s), thread %d runs\n", i, s.cur, s.op == FINISH ? "ends" : s.curEnabled ? "interrupted" : "waits",
                opname[s.op], (int)s.obj, s.pc ? names[s.pc].c_str() : "?", s.chosen);
            t += b;
        }
        logs(INT_MAX);
        for(int k = 0; k < r->nstacks; ++k) {
            t += std::string(r->stacks[k].title) + "\n";
            for(int i = 0; i < r->stacks[k].n; ++i) t += "      " + names[r->stacks[k].pc[i]] + "\n";
        }
        return t;
    }
    std::string list(const Item& it) {
        std::string s;
        for(int i = 0; i < it.n; ++i) s += (i ? "," : "") + std::to_string(it.d[i].step) + "=" + std::to_string(it.d[i].choice);
        return s;
    }
}

int main(int argc, char** argv) {
    std::string out, replay, only;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if(a == "--tier") g_thorough = std::string(argv[++i]) == "thorough";
        else if(a == "--workers") g_workers = atoi(argv[++i]);
        else if(a == "--out") out = argv[++i];
        else if(a == "--replay") replay = argv[++i];
        else if(a == "--only") only = argv[++i];
    }
    // The addresses take part in the order of some containers
    if(!getenv("MC_NOASLR")) {
        int pers = personality(0xffffffff);
        if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("MC_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    struct rlimit rl { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    mallopt(M_ARENA_MAX, 1);
    // Resolve everything before the threads run
    pthread_key_create(&endkey, onThreadEnd);
    for(int i = 1; i < MAXT; ++i) stacks[i] = (char*)mmap(nullptr, STACKSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    {
        // The main thread's own stack does not count as shared with itself
        pthread_attr_t a;
        void* lo; size_t n;
        pthread_getattr_np(pthread_self(), &a);
        pthread_attr_getstack(&a, &lo, &n);
        th[0].lo = (uintptr_t)lo;
        th[0].hi = th[0].lo + n;
        pthread_attr_destroy(&a);
    }
    static char altstack[65536];
    stack_t ss {};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = onSignal;
    sa.sa_flags = 0;
    for(int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);

    auto parse = [&](const std::string& v, Item& it) {
        // step=choice,step=choice: the preemptions are of no interest here
        it.n = it.preempt = 0;
        const char* p = v.c_str();
        while(*p) {
            char* e;
            long a = strtol(p, &e, 10);
            if(*e != '=') break;
            long b = strtol(e + 1, &e, 10);
            it.d[it.n++] = {(uint16_t)a, (uint8_t)b};
            p = *e == ',' ? e + 1 : e;
        }
    };
    auto r = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    {
        struct sigaction al {};
        al.sa_handler = onAlarm;
        sigaction(SIGALRM, &al, nullptr);
    }
    memotab = (Memo*)mmap(nullptr, sizeof(Memo), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(!replay.empty()) {
        auto colon = replay.find(':');
        for(size_t i = 0; i < scens().size(); ++i) {
            if(scens()[i].name != replay.substr(0, colon)) continue;
            Item it {};
            it.scen = (uint16_t)i;
            parse(replay.substr(colon + 1), it);
            int rc = runItem(it, r, true);
            printf("%s", describe(it, r).c_str());
            if(rc == 1) printf("FAILED %s: %s\n", r->key, r->msg);
            else printf("%s\n", rc ? r->error : "PASSED");
            return rc;
        }
        fprintf(stderr, "no such scenario\n");
        return 2;
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for(int i = (int)scens().size() - 1; i >= 0; --i) {
        if(!only.empty() && scens()[i].name != only) continue;
        Item& it = sh->q[sh->top++];
        memset((void*)&it, 0, sizeof it);
        it.scen = (uint16_t)i;
    }
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    fflush(stdout);
    std::vector<pid_t> pids;
    for(int w = 0; w < g_workers; ++w) {
        pid_t p = fork();
        if(p == 0) {
            if(!getenv("MC_OUTPUT")) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }
            worker(w);
        }
        pids.push_back(p);
    }
    bool workerfailed = false;
    for(auto p : pids) { int st; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)) workerfailed = true; }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    int rc = 0;
    std::string viol;
    if(sh->stop == 2 || workerfailed) {
        Item it = sh->bad;
        int x = runItem(it, r, true);
        fprintf(stderr, "explorer: %s (%s:%s) %d\n", r->error, scens()[it.scen].name.c_str(), list(it).c_str(), x);
        rc = 2;
    } else if(sh->stop == 1) {
        Item it = sh->bad;
        int a = runItem(it, r, true);
        std::string k = r->key;
        int b = runItem(it, r, true);
        bool rep = a == 1 && b == 1 && k == r->key;
        viol = "{\"scenario\":" + esc(scens()[it.scen].name) + ",\"choices\":" + esc(list(it)) + ",\"key\":" + esc(k) + ",\"message\":" + esc(r->msg) +
            ",\"trace\":" + esc(describe(it, r)) + ",\"reproduced\":" + (rep ? "true" : "false") + "}";
        rc = 1;
    }
    std::string names, sj, per;
    int taken = 0;
    for(size_t i = 0; i < scens().size(); ++i) {
        names += (names.empty() ? "" : ",") + esc(scens()[i].name);
        per += (per.empty() ? "" : ",") + esc(scens()[i].name) + ":" + std::to_string(sh->perScen[i]);
        if(rc == 0 && taken < 4 && sh->perScen[i]) {
            taken++;
            runItem(sh->samples[i], r, true);
            auto d = describe(sh->samples[i], r);
            if(d.size() > 3000) d = d.substr(0, 3000) + "...";
            sj += (sj.empty() ? "" : ",") + ("{\"scenario\":" + esc(scens()[i].name) + ",\"trace\":" + esc(d) + "}");
        }
    }
    double wall = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9;
    auto num = [](uint64_t v) { return std::to_string(v); };
    std::string json = "{\"executions\":" + num(sh->execs) + ",\"transitions\":" + num(sh->steps) + ",\"states\":" + num(sh->states) + ",\"schedules\":" + num(sh->execs) +
        ",\"pruned\":" + num(sh->pruned) + ",\"decisions\":" + num(sh->decisions) + ",\"longest\":" + num(sh->maxsteps) + ",\"dropped\":" + num(sh->dropped) +
        ",\"schedules_per_scenario\":{" + per + "},\"scenarios\":[" + names + "],\"wall_s\":" + std::to_string(wall) + ",\"samples\":[" + sj + "],\"violations\":[" + viol + "]}";
    if(sh->dropped && !rc) { fprintf(stderr, "explorer: %s schedules dropped\n", num(sh->dropped).c_str()); rc = 2; }
    if(!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if(!f) return 2;
        fwrite(json.data(), 1, json.size(), f);
        fclose(f);
    } else printf("%s\n", json.c_str());
    return rc;
}
