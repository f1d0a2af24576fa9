// P17: attaching and removing libraries against every answer of the loader
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    struct Jvm : FakeJni::Jvm { using FakeJni::Jvm::Jvm; using jnivm::VM::FromJavaVM; };
    enum Answer { BOTH, ONLY_LOAD, ONLY_UNLOAD, NEITHER, FAILS, ANSWERS };
    const char* const paths[] = {"/lib/a.so", "b.so", "builtin", ""};
    constexpr int P = 4, BUILTIN = 2;

    struct Lib { int opens = 0, closes = 0, loads = 0, unloads = 0, failed = 0; };
    struct Sim {
        Answer answer[P], selfAnswer[P];  // opening the file, the entry points of the program itself for this name
        Lib lib[P][2];                    // from the file, from the program
        int live[P][2] = {};
        JavaVM* vm = nullptr;
        int load = 0, unload = 0;         // behaviour of the entry points
        int current = -1;                 // path being attached or removed, -1 while destroying the VM
        int options[P];                   // the loader functions each path has to use
        std::function<void(int)> onLoad, onUnload;
        bool selfOk = true;
    }* sim;
    // Handles: number of the path, number of the loader functions
    char handles[P + 1][2];
    void* handleOf(int p, int o) { return &handles[p][o]; }
    bool decode(void* h, int& p, int& o) { size_t d = (char*)h - &handles[0][0]; if(d >= sizeof(handles)) return false; p = (int)d / 2; o = (int)d % 2; return true; }

    template<int I, int SELF> jint onLoad(JavaVM* vm, void* r) {
        sim->lib[I][SELF].loads++;
        MC_FLAG(vm == sim->vm, "load with another VM", "%s", paths[I]);
        MC_FLAG(r == nullptr, "reserved", "%s", paths[I]);
        MC_FLAG(sim->live[I][SELF] > 0, "load before open", "%s", paths[I]);
        log("load %s", paths[I]);
        if(sim->onLoad) sim->onLoad(I);
        return JNI_VERSION_1_6;
    }
    template<int I, int SELF> void onUnload(JavaVM* vm, void* r) {
        sim->lib[I][SELF].unloads++;
        MC_FLAG(vm == sim->vm, "unload with another VM", "%s", paths[I]);
        MC_FLAG(sim->live[I][SELF] > 0, "unload after close", "%s", paths[I]);
        log("unload %s", paths[I]);
        if(sim->onUnload) sim->onUnload(I);
    }
    typedef jint (*LoadFn)(JavaVM*, void*);
    typedef void (*UnloadFn)(JavaVM*, void*);
    LoadFn const loadFns[2][P] = {{onLoad<0, 0>, onLoad<1, 0>, onLoad<2, 0>, onLoad<3, 0>}, {onLoad<0, 1>, onLoad<1, 1>, onLoad<2, 1>, onLoad<3, 1>}};
    UnloadFn const unloadFns[2][P] = {{onUnload<0, 0>, onUnload<1, 0>, onUnload<2, 0>, onUnload<3, 0>}, {onUnload<0, 1>, onUnload<1, 1>, onUnload<2, 1>, onUnload<3, 1>}};

    int pathIndex(const char* n) { for(int i = 0; i < P; ++i) if(!strcmp(n, paths[i])) return i; return -1; }
    template<int O> void* simOpen(const char* name, int) {
        log("open %s", name ? name : "the program");
        if(!name) {
            int p = sim->current;
            bool builtin = p >= 0 && paths[p][0] && !strchr(paths[p], '/') && !strchr(paths[p], '.');
            MC_FLAG(builtin && sim->answer[p] == FAILS, "opened the program", "for %s", p >= 0 ? paths[p] : "nothing");
            if(!builtin || sim->selfAnswer[p] == FAILS) return nullptr;
            sim->lib[p][1].opens++;
            sim->live[p][1]++;
            return handleOf(P, O);
        }
        int p = pathIndex(name);
        MC_FLAG(p >= 0 && p == sim->current, "opened another path", "%s", name);
        if(p < 0) return nullptr;
        MC_FLAG(O == sim->options[p], "loader functions", "of another library used to open %s", name);
        if(sim->answer[p] == FAILS) { sim->lib[p][0].failed++; return nullptr; }
        sim->lib[p][0].opens++;
        sim->live[p][0]++;
        return handleOf(p, O);
    }
    template<int O> void* simSym(void* h, const char* name) {
        int p, o;
        if(!decode(h, p, o)) { mc::flag("handle", "symbol %s of an unknown handle %p", name, h); return nullptr; }
        MC_FLAG(o == O, "loader functions", "of another library used to find %s", name);
        int self = p == P;
        std::string n = name;
        if(self) {
            auto u = n.find("JNI_OnUnload_") == 0 ? 13 : n.find("JNI_OnLoad_") == 0 ? 11 : 0;
            MC_FLAG(u, "symbol", "%s of the program itself", name);
            if(!u) return nullptr;
            p = pathIndex(name + u);
            MC_FLAG(p >= 0, "symbol", "%s of the program itself", name);
            if(p < 0) return nullptr;
            n = n.substr(0, u - 1);
        }
        if(!(sim->live[p][self] > 0)) { mc::flag("symbol of a closed library", "%s of %s", name, paths[p]); return nullptr; }
        auto a = self ? sim->selfAnswer[p] : sim->answer[p];
        if(n == "JNI_OnLoad") return a == BOTH || a == ONLY_LOAD ? (void*)loadFns[self][p] : nullptr;
        if(n == "JNI_OnUnload") return a == BOTH || a == ONLY_UNLOAD ? (void*)unloadFns[self][p] : nullptr;
        mc::flag("symbol", "%s of %s", name, paths[p]);
        return nullptr;
    }
    template<int O> int simClose(void* h) {
        int p, o;
        if(!decode(h, p, o)) { mc::flag("handle", "closed an unknown handle %p", h); return -1; }
        MC_FLAG(o == O, "loader functions", "of another library used to close");
        int self = p == P;
        if(self) p = BUILTIN; // The only one that may
        log("close %s", paths[p]);
        sim->lib[p][self].closes++;
        MC_FLAG(--sim->live[p][self] >= 0, "closed again", "%s", paths[p]);
        return 0;
    }
    FakeJni::LibraryOptions options(int o) {
        return o ? FakeJni::LibraryOptions(simOpen<1>, simSym<1>, simClose<1>) : FakeJni::LibraryOptions(simOpen<0>, simSym<0>, simClose<0>);
    }

    struct World {
        Sim s;
        std::shared_ptr<FakeJni::Jvm> vm; // Jvm has no virtual destructor
        bool attached[P] = {}; // in the model: opened successfully and not removed
        bool tried[P] = {};    // tried without success and not removed
        int expect[P][2][4] = {}; // opens, loads, unloads, closes
        bool baron;
        World(bool baron) : baron(baron) {
            sim = &s;
            if(baron) vm = std::make_shared<Baron::Jvm>(); else vm = std::make_shared<FakeJni::Jvm>();
            s.vm = vm.get();
        }
        static bool builtin(int p) { return *paths[p] && !strchr(paths[p], '/') && !strchr(paths[p], '.'); }
        int from(int p) const { return s.answer[p] != FAILS ? 0 : builtin(p) && s.selfAnswer[p] != FAILS ? 1 : -1; }
        bool calls(int p, int self, bool load) const {
            auto a = self ? s.selfAnswer[p] : s.answer[p];
            return a == BOTH || a == (load ? ONLY_LOAD : ONLY_UNLOAD);
        }
        std::vector<int> nested;
        void attach(int p, int o) {
            log("attach %s", paths[p]);
            int before = s.current;
            s.current = p;
            if(!attached[p]) s.options[p] = o;
            bool was = attached[p];
            if(!was) {
                int f = from(p);
                if(f >= 0) {
                    expect[p][f][0]++;
                    if(calls(p, f, true)) expect[p][f][1]++;
                }
            }
            vm->attachLibrary(paths[p], "", options(o));
            s.current = before;
            if(!was) {
                attached[p] = from(p) >= 0;
                tried[p] = !attached[p];
            }
            mc::transition();
        }
        void expectGone(int p) {
            int f = from(p);
            if(calls(p, f, false)) expect[p][f][2]++;
            expect[p][f][3]++;
            attached[p] = false;
        }
        void remove(int p) {
            log("remove %s", paths[p]);
            int before = s.current;
            s.current = p;
            if(attached[p]) expectGone(p);
            tried[p] = false;
            vm->removeLibrary(paths[p]);
            s.current = before;
            mc::transition();
        }
        void check(const char* when) {
            for(int p = 0; p < P; ++p) for(int f = 0; f < 2; ++f) {
                auto& l = s.lib[p][f];
                auto& e = expect[p][f];
                MC_CHECK(l.opens == e[0], "opens", "%s: %s%s opened %d times, expected %d", when, paths[p], f ? " in the program" : "", l.opens, e[0]);
                MC_CHECK(l.loads == e[1], "loads", "%s: load function of %s%s called %d times, expected %d", when, paths[p], f ? " in the program" : "", l.loads, e[1]);
                MC_CHECK(l.unloads == e[2], "unloads", "%s: unload function of %s%s called %d times, expected %d", when, paths[p], f ? " in the program" : "", l.unloads, e[2]);
                MC_CHECK(l.closes == e[3], "closes", "%s: %s%s closed %d times, expected %d", when, paths[p], f ? " in the program" : "", l.closes, e[3]);
            }
            uint64_t h = 7;
            for(int p = 0; p < P; ++p) h = mc::mix(h, attached[p] * 100 + s.answer[p] * 10 + s.selfAnswer[p]);
            mc::state(h);
        }
        void destroy() {
            log("destroy the VM");
            s.current = -1;
            for(int p = 0; p < P; ++p) if(attached[p]) expectGone(p);
            vm.reset();
            check("after destroying the VM");
        }
        ~World() { s.onLoad = nullptr; s.onUnload = nullptr; vm.reset(); sim = nullptr; }
    };
    void answers(World& w, std::initializer_list<int> which) {
        for(int p = 0; p < P; ++p) { w.s.answer[p] = BOTH; w.s.selfAnswer[p] = BOTH; w.s.options[p] = 0; }
        for(int p : which) {
            w.s.answer[p] = (Answer)choose(ANSWERS);
            if(World::builtin(p) && w.s.answer[p] == FAILS) w.s.selfAnswer[p] = (Answer)choose(ANSWERS);
        }
    }
    // Histories of attaching and removing, every answer for two of the paths, answers changing between attempts
    void histories() {
        World w(choose(2));
        int a = choose(P), b = choose(P - 1);
        if(b >= a) b++;
        answers(w, {a, b});
        int n = mc::bound(5, 4, 7, 5);
        for(int i = 0; i < n; ++i) {
            int op = choose(5);
            if(op < 2) w.attach(op ? b : a, 0);
            else if(op < 4) w.remove(op == 3 ? b : a);
            else { // The library becomes available or is lost
                int p = a;
                if(w.attached[p] || w.tried[p]) { w.remove(p); }
                w.s.answer[p] = w.s.answer[p] == FAILS ? BOTH : FAILS;
                log("%s is now %s", paths[p], w.s.answer[p] == FAILS ? "missing" : "there");
            }
            w.check("after a step");
        }
        w.destroy();
    }
    // The functions of each library are its own
    void optionsOf() {
        World w(choose(2));
        answers(w, {});
        int n = mc::bound(4, 3, 5, 4);
        for(int i = 0; i < n; ++i) {
            int op = choose(9);
            if(op == 8) break;
            if(op < 6) w.attach(op / 2, op & 1);
            else w.remove(op - 6);
            w.check("after a step");
        }
        w.destroy();
    }
    // Load and unload functions that use the VM, attach and remove others
    void reentrant() {
        bool baron = choose(2);
        World w(baron);
        answers(w, {});
        if(baron && choose(2)) for(int i = 0; i < 40; ++i) static_cast<Baron::Jvm*>(w.vm.get())->denyClass(("denied/C" + std::to_string(i)).data());
        int load = choose(4), unload = choose(3);
        std::vector<int> seen;
        auto use = [&](const char* cls) {
            JNIEnv* env = nullptr;
            MC_FLAG(w.s.vm->GetEnv((void**)&env, JNI_VERSION_1_6) == JNI_OK && env, "env", "none in an entry point");
            JavaVM* back = nullptr;
            env->GetJavaVM(&back);
            MC_FLAG(VM::FromJavaVM(back) == VM::FromJavaVM(w.s.vm), "env", "of another VM");
            env->PushLocalFrame(0);
            MC_FLAG(env->FindClass("java/lang/String"), "class", "not found in an entry point");
            MC_FLAG((bool)env->FindClass(cls) == baron, "class", "%s in an entry point", cls);
            env->PopLocalFrame(nullptr);
        };
        w.s.onLoad = [&](int p) {
            if(load == 1) use("loaded/New");
            else if(load == 2 && p == 0) { w.attach(1, 0); w.attach(1, 0); }
            else if(load == 3 && p == 0) w.remove(1);
        };
        w.s.onUnload = [&](int p) {
            if(unload == 1) use("unloaded/New");
            else if(unload == 2 && p == 0 && w.s.current == 0) w.remove(1);
        };
        int n = mc::bound(4, 3, 5, 4);
        for(int i = 0; i < n; ++i) {
            int op = choose(5);
            if(op == 4) break;
            if(op < 2) w.attach(op, 0); else w.remove(op - 2);
            w.check("after a step");
        }
        w.destroy();
    }
    // Any number of libraries
    std::map<std::string, int> manyOpen, manyLoad, manyUnload, manyClose;
    std::vector<std::string> manyNames;
    std::string* cur;
    void many() {
        int n = chooseSize(mc::bound(257, 65, 1025, 257)), order = choose(3), keep = choose(3);
        static std::map<std::string, int> open, close;
        open.clear();
        close.clear();
        manyNames.clear();
        manyNames.reserve(n);
        FakeJni::LibraryOptions o(
            [](const char* p, int) -> void* { open[p]++; manyNames.push_back(p); return (void*)&manyNames[manyNames.size() - 1]; },
            [](void*, const char*) -> void* { return nullptr; },
            [](void* h) -> int { close[*(std::string*)h]++; return 0; });
        {
            FakeJni::Jvm vm;
            auto name = [](int i) { return "/l/" + std::to_string(i) + ".so"; };
            for(int i = 0; i < n; ++i) vm.attachLibrary(name(i), "", o);
            for(int i = 0; i < n; ++i) vm.attachLibrary(name(n - 1 - i), "", o);
            MC_CHECK((int)open.size() == n, "opens", "%zu of %d", open.size(), n);
            for(int i = 0; i < n; ++i) {
                int k = order == 0 ? i : order == 1 ? n - 1 - i : (i & 1 ? n - 1 - i / 2 : i / 2);
                if(keep && k % 2 == keep - 1) continue;
                MC_CHECK(!close.count(name(k)), "closes", "%d too early", k);
                vm.removeLibrary(name(k));
                MC_CHECK(close[name(k)] == 1, "closes", "%d: %d", k, close[name(k)]);
                mc::transition();
            }
            vm.removeLibrary("/l/none.so");
        }
        for(int i = 0; i < n; ++i) {
            auto k = "/l/" + std::to_string(i) + ".so";
            MC_CHECK(open[k] == 1 && close[k] == 1, "closes", "%d opened %d, closed %d times", i, open[k], close[k]);
        }
        MC_CHECK((int)close.size() == n, "closes", "%zu of %d", close.size(), n);
        mc::state(mc::mix(n, order * 3 + keep));
    }
    // The real loader on this program itself
    int realLoads[2], realUnloads[2];
    JavaVM* realVM;
    void real() {
        memset(realLoads, 0, sizeof(realLoads));
        memset(realUnloads, 0, sizeof(realUnloads));
        int e[2][2] = {};
        bool on[3] = {};
        std::shared_ptr<FakeJni::Jvm> vm;
        if(choose(2)) vm = std::make_shared<Baron::Jvm>(); else vm = std::make_shared<FakeJni::Jvm>();
        realVM = vm.get();
        static const char* names[] = {"", "realtest", "/nowhere/missing.so"};
        int n = mc::bound(4, 3, 5, 4);
        for(int i = 0; i < n; ++i) {
            int op = choose(7);
            if(op == 6) break;
            int l = op / 2;
            log("%s %s", op & 1 ? "remove" : "attach", names[l]);
            if(op & 1) { vm->removeLibrary(names[l]); if(l < 2 && on[l]) e[1][l]++; on[l] = false; }
            else { vm->attachLibrary(names[l]); if(l < 2 && !on[l]) e[0][l]++; on[l] = true; }
            for(int k = 0; k < 2; ++k) MC_CHECK(realLoads[k] == e[0][k] && realUnloads[k] == e[1][k], "real", "%s: %d loads, expected %d, %d unloads, expected %d", names[k], realLoads[k], e[0][k], realUnloads[k], e[1][k]);
            mc::transition();
        }
        vm.reset();
        for(int k = 0; k < 2; ++k) MC_CHECK(realLoads[k] == e[0][k] && realUnloads[k] == e[0][k], "real", "%s at the end: %d loads, expected %d, %d unloads", names[k], realLoads[k], e[0][k], realUnloads[k]);
        mc::state(e[0][0] * 10 + e[0][1]);
    }
    int init = [] {
        mc::scenario("histories", histories, 4);
        mc::scenario("options", optionsOf, 3);
        mc::scenario("reentrant", reentrant, 3);
        mc::scenario("many", many, 2);
        mc::scenario("real", real, 2);
        return 0;
    }();
}
extern "C" {
    JNIEXPORT jint JNI_OnLoad(JavaVM* vm, void*) { realLoads[0]++; MC_FLAG(vm == realVM, "real", "another VM"); return 0; }
    JNIEXPORT void JNI_OnUnload(JavaVM* vm, void*) { realUnloads[0]++; MC_FLAG(vm == realVM, "real", "another VM"); }
    JNIEXPORT jint JNI_OnLoad_realtest(JavaVM* vm, void*) { realLoads[1]++; MC_FLAG(vm == realVM, "real", "another VM"); return 0; }
    JNIEXPORT void JNI_OnUnload_realtest(JavaVM* vm, void*) { realUnloads[1]++; MC_FLAG(vm == realVM, "real", "another VM"); }
}
