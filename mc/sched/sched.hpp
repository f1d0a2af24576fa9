// Schedule explorer: runs real threads of the instrumented code one at a time and enumerates the
// schedules up to a preemption bound, each in a process of its own.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
    // Runs the functions on threads of their own, under every schedule. Once per execution
    void parallel(std::vector<std::function<void()>> bodies);
    // All alternatives are explored (before, in or after the parallel part)
    int choose(int n);
    // The thread may be interrupted here
    void yield();
    // No interruptions while one exists, for preparations that are not what is explored
    struct Quiet { Quiet(); ~Quiet(); };
    // Values computed once for all executions, found again by key
    std::vector<uint64_t> memo(uint64_t key, std::function<std::vector<uint64_t>()> compute);
    // Index of the thread, 0 for the main thread
    int self();
    [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    bool thorough();
    // Preemption bounds of both tiers
    void scenario(const char* name, std::function<void()> body, int quick = 2, int thorough = 3);
}
#define SCHED_CHECK(cond, key, ...) do { if(!(cond)) ::sched::fail(key, __VA_ARGS__); } while(0)
