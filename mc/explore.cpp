#undef _FORTIFY_SOURCE
#include "explore.hpp"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <map>
#include <unordered_set>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#endif

#ifndef MC_ASAN
// Fresh memory is dirty and freed memory is overwritten, so that the use of either is visible
static std::atomic<long> g_blocks{0}, g_bytes{0};
static void* mc_new(size_t n) {
    // The size asked for is in front of the block
    char* p = (char*)malloc(n + 16);
    if(!p) abort();
    *(size_t*)p = n;
    memset(p + 16, 0xCD, n);
    g_blocks.fetch_add(1, std::memory_order_relaxed);
    g_bytes.fetch_add((long)n, std::memory_order_relaxed);
    return p + 16;
}
static void mc_delete(void* q) {
    if(!q) return;
    char* p = (char*)q - 16;
    size_t n = *(size_t*)p;
    if(n > malloc_usable_size(p)) abort();
    memset(p, 0xDB, n + 16);
    asm volatile("" : : "r"(p) : "memory");
    g_blocks.fetch_sub(1, std::memory_order_relaxed);
    g_bytes.fetch_sub((long)n, std::memory_order_relaxed);
    free(p);
}
void* operator new(size_t n) { return mc_new(n); }
void* operator new[](size_t n) { return mc_new(n); }
void operator delete(void* p) noexcept { mc_delete(p); }
void operator delete[](void* p) noexcept { mc_delete(p); }
void operator delete(void* p, size_t) noexcept { mc_delete(p); }
void operator delete[](void* p, size_t) noexcept { mc_delete(p); }
long mc::liveBlocks() { return g_blocks; }
long mc::liveBytes() { return g_bytes; }
bool mc::countsMemory() { return true; }
#else
long mc::liveBlocks() { return 0; }
long mc::liveBytes() { return 0; }
bool mc::countsMemory() { return false; }
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=205:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=16:handle_abort=1";
}
#endif

namespace {
    constexpr int MAXCHOICES = 1 << 13;
    struct Slot {
        std::atomic<uint64_t> execs, transitions, beat;
        std::atomic<int> scen, nchoices, failed, done;
        uint32_t choices[MAXCHOICES];
        int samples; // recorded
        int samplescen[4], samplen[4];
        uint32_t sample[4][1024];
        char key[256];
        char msg[4096];
    };
    struct Choice { uint32_t c, n; };
    struct Scen { std::string name; std::function<void()> body; int split; };
    std::vector<Scen>& scens() { static std::vector<Scen> s; return s; }
    std::string g_tier = "quick";
    bool g_deep = true;
    int g_workers = 8;
    // Execution state
    std::vector<Choice> path;
    size_t pos;
    bool replaying, g_verbose;
    int tracefd = -1;
    bool failed;
    std::string fkey, fmsg;
    Slot* slot;
    uint64_t prefixid;
    bool prefixchanged, skipped, prefixdone;
    int cursplit, me;
    std::unordered_set<uint64_t>* states;
    uint64_t scenhash;
    long g_limit = 0;

    std::string esc(const std::string& s) {
        std::string r = "\"";
        char b[8];
        for(unsigned char c : s) {
            if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if(c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }
}

bool mc::verbose() { return g_verbose; }
bool mc::thorough() { return g_tier == "thorough"; }
bool mc::deep() { return g_deep; }
int mc::bound(int qd, int qs, int td, int ts) { return thorough() ? (g_deep ? td : ts) : (g_deep ? qd : qs); }
void mc::scenario(const char* name, std::function<void()> body, int split) { scens().push_back({name, body, split}); }

int mc::choose(int n) {
    if(n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(3); }
    if(n == 1) return 0;
    uint32_t c;
    if(pos < path.size()) {
        if(path[pos].n != (uint32_t)n && !(replaying && path[pos].n == 0)) {
            fprintf(stderr, "mc: divergence at choice %zu: %u alternatives, now %d\n", pos, path[pos].n, n);
            _exit(3);
        }
        c = path[pos].c;
        if(c >= (uint32_t)n) { fprintf(stderr, "mc: divergence at choice %zu\n", pos); _exit(3); }
    } else {
        path.push_back({0, (uint32_t)n});
        c = 0;
    }
    if(slot && pos < MAXCHOICES) {
        slot->choices[pos] = c;
        slot->nchoices.store((int)pos + 1, std::memory_order_release);
    }
    pos++;
    if(!replaying && (int)pos == cursplit) {
        prefixdone = true;
        if(prefixchanged) {
            prefixchanged = false;
            if((int)(prefixid++ % g_workers) != me) {
                skipped = true;
                throw Stop{};
            }
        }
    }
    return (int)c;
}

void mc::transition() {
    if(slot) slot->transitions.fetch_add(1, std::memory_order_relaxed);
}
static bool ownstates;
void mc::state(uint64_t h) { ownstates = true; if(states) states->insert(mix(h, scenhash)); }
void mc::state(const std::string& s) { state((uint64_t)std::hash<std::string>{}(s)); }
void mc::log(const char* fmt, ...) {
    if(!g_verbose) return;
    char b[2050];
    va_list l;
    va_start(l, fmt);
    vsnprintf(b, 2048, fmt, l);
    va_end(l);
    if(tracefd >= 0) {
        size_t n = strlen(b);
        b[n] = '\n';
        if(write(tracefd, b, n + 1) < 0) return;
    }
}
static void vflag(const char* key, const char* fmt, va_list l) {
    if(failed) return;
    char b[4000];
    vsnprintf(b, sizeof b, fmt, l);
    failed = true;
    fkey = key;
    fmsg = b;
}
void mc::flag(const char* key, const char* fmt, ...) {
    va_list l;
    va_start(l, fmt);
    vflag(key, fmt, l);
    va_end(l);
}
void mc::fail(const char* key, const char* fmt, ...) {
    va_list l;
    va_start(l, fmt);
    vflag(key, fmt, l);
    va_end(l);
    throw Stop{};
}

static void execute(Scen& s) {
    pos = 0;
    failed = skipped = prefixdone = ownstates = false;
    try {
        s.body();
    } catch(const mc::Stop&) {
    } catch(const std::exception& e) {
        mc::flag("unexpected-exception", "exception escaped: %s", e.what());
    } catch(...) {
        mc::flag("unexpected-exception", "exception escaped");
    }
    if(!ownstates && !skipped && states) {
        // Without a model state the history itself is the state
        uint64_t h = scenhash;
        for(auto& p : path) h = mc::mix(h, p.c + 1);
        states->insert(h);
    }
    // A failed execution ends early. It may have passed before, if executions influence the next ones
    if(!replaying && !skipped && !failed && pos < path.size()) {
        fprintf(stderr, "mc: divergence, only %zu of %zu choices made\n", pos, path.size());
        _exit(3);
    }
}

static void worker(int id, Slot* sl, const char* statefile) {
    me = id;
    slot = sl;
    static std::unordered_set<uint64_t> st;
    states = &st;
    for(size_t si = 0; si < scens().size(); ++si) {
        auto& s = scens()[si];
        scenhash = std::hash<std::string>{}(s.name);
        slot->scen = (int)si;
        cursplit = s.split;
        path.clear();
        prefixid = 0;
        prefixchanged = true;
        uint64_t nexec = 0;
        for(;;) {
            slot->nchoices = 0;
            execute(s);
            bool mine = !skipped;
            if(!skipped && !prefixdone) mine = (int)(prefixid++ % g_workers) == me;
            if(failed && !skipped) {
                snprintf(slot->key, sizeof slot->key, "%s", fkey.c_str());
                snprintf(slot->msg, sizeof slot->msg, "%s", fmsg.c_str());
                slot->failed = 1;
                _exit(5);
            }
            if(mine) {
                slot->execs.fetch_add(1, std::memory_order_relaxed);
                nexec++;
                // Remember a few executions as samples
                if((nexec & (nexec - 1)) == 0 && path.size() < 1024) {
                    int k = (int)(si % 4);
                    slot->samplescen[k] = (int)si;
                    slot->samplen[k] = (int)path.size();
                    for(size_t i = 0; i < path.size(); ++i) slot->sample[k][i] = path[i].c;
                    slot->samples |= 1 << k;
                }
            }
            slot->beat.fetch_add(1, std::memory_order_relaxed);
            while(!path.empty() && path.back().c + 1 == path.back().n) path.pop_back();
            if(path.empty()) break;
            path.back().c++;
            if((int)path.size() <= cursplit) prefixchanged = true;
            if(g_limit && (long)nexec > g_limit) break;
        }
    }
    FILE* f = fopen(statefile, "wb");
    if(f) {
        std::vector<uint64_t> v(st.begin(), st.end());
        if(!v.empty()) fwrite(v.data(), 8, v.size(), f);
        fclose(f);
    }
    slot->done = 1;
    _exit(0);
}

struct Outcome { bool failed; std::string key, msg, trace; bool crash, hang; };

// Runs one recorded execution in a process of its own, several times after each other if asked for
static Outcome replayOnce(int scen, const std::vector<uint32_t>& choices, int timeout, int times = 1) {
    int p[2];
    if(pipe(p)) abort();
    char errname[] = "/tmp/mcerrXXXXXX";
    int efd = mkstemp(errname);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if(pid == 0) {
        close(p[0]);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(efd, 2);
        replaying = g_verbose = true;
        slot = nullptr;
        path.clear();
        for(auto c : choices) path.push_back({c, 0});
        // Written unbuffered, so that the operations before a crash are known
        tracefd = p[1];
        for(int i = 0; i < times; ++i) {
            if(times > 1) mc::log("run %d of %d in this process", i + 1, times);
            execute(scens()[scen]);
            if(failed) break;
            path.clear();
            for(auto c : choices) path.push_back({c, 0});
        }
        std::string r;
        if(failed) r = std::string("\n!FAILED!") + fkey + "\n" + fmsg;
        size_t off = 0;
        while(off < r.size()) {
            ssize_t w = write(p[1], r.data() + off, r.size() - off);
            if(w <= 0) break;
            off += w;
        }
        _exit(failed ? 5 : 0);
    }
    close(p[1]);
    Outcome o{};
    std::string out;
    time_t end = time(nullptr) + timeout;
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    int status = 0;
    for(;;) {
        char b[65536];
        ssize_t n = read(p[0], b, sizeof b);
        if(n > 0) { out.append(b, n); continue; }
        if(n == 0) { waitpid(pid, &status, 0); break; }
        if(time(nullptr) > end) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            o.hang = true;
            break;
        }
        usleep(2000);
    }
    close(p[0]);
    std::string err;
    {
        char b[8192];
        lseek(efd, 0, SEEK_SET);
        ssize_t n = read(efd, b, sizeof b);
        if(n > 0) err.assign(b, n);
        close(efd);
        unlink(errname);
    }
    if(o.hang) {
        o.failed = true;
        o.key = "hang";
        o.trace = out.substr(0, 20000);
        o.msg = "the execution does not terminate";
    } else if(WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        o.trace = out;
    } else if(WIFEXITED(status) && WEXITSTATUS(status) == 5) {
        auto i = out.rfind("\n!FAILED!");
        o.failed = true;
        o.trace = out.substr(0, i);
        auto rest = out.substr(i + 9);
        auto nl = rest.find('\n');
        o.key = rest.substr(0, nl);
        o.msg = rest.substr(nl + 1);
    } else if(WIFEXITED(status) && WEXITSTATUS(status) == 3) {
        o.key = "divergence";
        o.msg = err;
    } else {
        o.failed = o.crash = true;
        o.key = "crash";
        o.trace = out;
        o.msg = (WIFSIGNALED(status) ? "killed by signal " + std::to_string(WTERMSIG(status)) : "exit status " + std::to_string(WEXITSTATUS(status))) + "\n" + err;
    }
    return o;
}

int mc::main_(int argc, char** argv) {
    std::string out, replay, only;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if(a == "--tier") g_tier = argv[++i];
        else if(a == "--shallow") g_deep = false;
        else if(a == "--workers") g_workers = atoi(argv[++i]);
        else if(a == "--out") out = argv[++i];
        else if(a == "--replay") replay = argv[++i];
        else if(a == "--only") only = argv[++i];
        else if(a == "--limit") g_limit = atol(argv[++i]);
    }
    // The addresses take part in the order of some containers
    if(!getenv("MC_NOASLR")) {
        int pers = personality(0xffffffff);
        if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("MC_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    struct rlimit rl { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    if(!only.empty()) {
        auto& v = scens();
        v.erase(std::remove_if(v.begin(), v.end(), [&](Scen& s) { return s.name != only; }), v.end());
    }
    if(!replay.empty()) {
        // SCENARIO:c,c,c
        auto colon = replay.find(':');
        std::string name = replay.substr(0, colon);
        std::vector<uint32_t> ch;
        int times = 1;
        auto x = replay.rfind('x');
        if(x != std::string::npos && x > colon) {
            times = atoi(replay.c_str() + x + 1);
            replay.resize(x);
        }
        for(size_t i = colon + 1; i < replay.size();) {
            ch.push_back((uint32_t)strtoul(replay.c_str() + i, nullptr, 10));
            auto c = replay.find(',', i);
            if(c == std::string::npos) break;
            i = c + 1;
        }
        for(size_t i = 0; i < scens().size(); ++i) {
            if(scens()[i].name == name) {
                auto o = replayOnce((int)i, ch, 120, times);
                printf("%s", o.trace.c_str());
                if(o.failed) printf("FAILED %s: %s\n", o.key.c_str(), o.msg.c_str());
                else printf("%s\n", o.key.empty() ? "PASSED" : (o.key + o.msg).c_str());
                return o.failed ? 1 : o.key.empty() ? 0 : 2;
            }
        }
        fprintf(stderr, "no such scenario\n");
        return 2;
    }
    auto slots = (Slot*)mmap(nullptr, sizeof(Slot) * g_workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids;
    std::string base = out + ".states.";
    struct timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    fflush(stdout);
    for(int w = 0; w < g_workers; ++w) {
        pid_t pid = fork();
        if(pid == 0) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            int e = open((base + std::to_string(w) + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(e, 2);
            worker(w, slots + w, (base + std::to_string(w)).c_str());
        }
        pids.push_back(pid);
    }
    std::vector<uint64_t> lastbeat(g_workers, ~0ull);
    std::vector<time_t> lasttime(g_workers, time(nullptr));
    std::vector<bool> running(g_workers, true);
    int left = g_workers, bad = -1, badstatus = 0;
    bool badhang = false, diverged = false;
    while(left) {
        int st;
        pid_t p;
        while((p = waitpid(-1, &st, left ? WNOHANG : 0)) > 0) {
            int w = (int)(std::find(pids.begin(), pids.end(), p) - pids.begin());
            running[w] = false;
            left--;
            if(WIFEXITED(st) && WEXITSTATUS(st) == 3) diverged = true, bad = w;
            if(bad < 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].done)) {
                bad = w;
                badstatus = st;
            }
        }
        if(bad >= 0) break;
        time_t now = time(nullptr);
        for(int w = 0; w < g_workers; ++w) {
            if(!running[w]) continue;
            auto b = slots[w].beat.load() + slots[w].transitions.load();
            if(b != lastbeat[w]) { lastbeat[w] = b; lasttime[w] = now; }
            else if(now - lasttime[w] > 40) { bad = w; badhang = true; break; }
        }
        if(bad >= 0) break;
        usleep(3000);
    }
    for(int w = 0; w < g_workers; ++w) if(running[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }
    struct timespec t1;
    clock_gettime(CLOCK_MONOTONIC, &t1);

    std::string viol;
    int rc = 0;
    if(diverged) {
        fprintf(stderr, "the harness is not deterministic\n");
        int e = system(("cat " + base + "*.err >&2").c_str());
        (void)e;
        rc = 2;
    } else if(bad >= 0) {
        auto& s = slots[bad];
        std::vector<uint32_t> ch(s.choices, s.choices + std::min((int)s.nchoices, MAXCHOICES));
        int scen = s.scen;
        std::string list;
        for(auto c : ch) list += (list.empty() ? "" : ",") + std::to_string(c);
        auto a = replayOnce(scen, ch, 60), b = replayOnce(scen, ch, 60);
        if(!a.failed && !b.failed) {
            // What the execution leaves in the process may fail the next one
            a = replayOnce(scen, ch, 60, 2);
            b = replayOnce(scen, ch, 60, 2);
            if(a.failed && b.failed) list += "x2";
        }
        std::string err;
        if(FILE* f = fopen((base + std::to_string(bad) + ".err").c_str(), "r")) {
            char buf[6000];
            size_t n = fread(buf, 1, sizeof buf, f);
            err.assign(buf, n);
            fclose(f);
        }
        if(a.failed && b.failed && a.key == b.key) {
            viol = "{\"scenario\":" + esc(scens()[scen].name) + ",\"choices\":" + esc(list) + ",\"key\":" + esc(a.key) + ",\"message\":" + esc(a.msg) + ",\"trace\":" + esc(a.trace) + ",\"reproduced\":true}";
            rc = 1;
        } else {
            // Only fails with what previous executions left in the process. Report what was seen, run.py repeats the whole exploration
            std::string key = s.failed ? s.key : badhang ? "hang" : "crash";
            std::string msg = s.failed ? s.msg : badhang ? "no progress" : (WIFSIGNALED(badstatus) ? "signal " + std::to_string(WTERMSIG(badstatus)) : "exit " + std::to_string(WEXITSTATUS(badstatus))) + "\n" + err;
            viol = "{\"scenario\":" + esc(scens()[scen].name) + ",\"choices\":" + esc(list) + ",\"key\":" + esc(key) + ",\"message\":" + esc(msg) + ",\"trace\":" + esc(a.trace) + ",\"reproduced\":false}";
            rc = 1;
        }
    }
    uint64_t ex = 0, tr = 0;
    std::unordered_set<uint64_t> all;
    std::map<int, std::vector<uint32_t>> samples;
    for(int w = 0; w < g_workers; ++w) {
        ex += slots[w].execs;
        tr += slots[w].transitions;
        if(FILE* f = fopen((base + std::to_string(w)).c_str(), "rb")) {
            uint64_t v[4096];
            size_t n;
            while((n = fread(v, 8, 4096, f)) > 0) all.insert(v, v + n);
            fclose(f);
        }
        unlink((base + std::to_string(w)).c_str());
        unlink((base + std::to_string(w) + ".err").c_str());
        for(int k = 0; k < 4; ++k) {
            if(slots[w].samples >> k & 1) samples[slots[w].samplescen[k]].assign(slots[w].sample[k], slots[w].sample[k] + slots[w].samplen[k]);
        }
    }
    std::string sj;
    int taken = 0;
    if(rc == 0) {
        for(auto&& s : samples) {
            if(taken++ == 4) break;
            auto o = replayOnce(s.first, s.second, 60);
            if(o.trace.size() > 3000) o.trace = o.trace.substr(0, 3000) + "...";
            sj += (sj.empty() ? "" : ",") + ("{\"scenario\":" + esc(scens()[s.first].name) + ",\"trace\":" + esc(o.trace) + "}");
        }
    }
    std::string names;
    for(auto&& s : scens()) names += (names.empty() ? "" : ",") + esc(s.name);
    double wall = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9;
    std::string json = "{\"executions\":" + std::to_string(ex) + ",\"transitions\":" + std::to_string(tr) + ",\"states\":" + std::to_string(all.size()) +
        ",\"scenarios\":[" + names + "],\"wall_s\":" + std::to_string(wall) + ",\"samples\":[" + sj + "],\"violations\":[" + viol + "]}";
    if(!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if(!f) return 2;
        fwrite(json.data(), 1, json.size(), f);
        fclose(f);
    } else {
        printf("%s\n", json.c_str());
    }
    return rc;
}
int main(int argc, char** argv) { return mc::main_(argc, argv); }
