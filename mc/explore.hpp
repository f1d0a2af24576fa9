// Exhaustive explorer for sequential histories: a stateless depth first search over the answers of
// choose(), every execution re-run on the real code in lockstep with a reference model.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {
    // Thrown to end an execution, never caught by a harness
    struct Stop {};

    // The next nondeterministic choice out of 0..n-1, simplest first
    int choose(int n);
    // One operation has been applied to the code and to the model
    void transition();
    // The (canonical) state of the model, only for counting the distinct states
    void state(const std::string& canonical);
    void state(uint64_t hash);
    // Part of the trace, only formatted while replaying
    void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    bool verbose();
    // The property is broken. The key identifies what failed
    [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // As fail, but returns (for use within callbacks out of the code under test)
    void flag(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // deep: plain optimised build, shallow: every additional build (sanitizer, other configurations)
    int bound(int quickdeep, int quickshallow, int thoroughdeep, int thoroughshallow);
    bool thorough();
    bool deep();
    void scenario(const char* name, std::function<void()> body, int split = 2);
    int main_(int argc, char** argv);

    inline uint64_t mix(uint64_t h, uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 33);
    }
    // Outstanding operator new allocations (not counted in sanitizer builds)
    long liveBlocks();
    long liveBytes();
    bool countsMemory();
}
#define MC_CHECK(cond, key, ...) do { if(!(cond)) ::mc::fail(key, __VA_ARGS__); } while(0)
#define MC_FLAG(cond, key, ...) do { if(!(cond)) ::mc::flag(key, __VA_ARGS__); } while(0)
