// lmc: a stateless / happens-before-caching model checker that runs the real code
// under a controlled scheduler.  See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace lmc {

typedef void (*Body)();

enum Flags : unsigned {
    F_NONE = 0,
    F_TIMEOUTS = 1,    // timed waits may expire early (a deviation) even while other threads can run
    F_SPURIOUS = 2,    // condition waits may wake spuriously (a deviation)
    F_DELAY = 8,       // delay bounding: also where a thread blocks, only the next thread in order runs for free
    F_SEQ = 4,         // no threads of interest: only lmc::choose() branches
};

struct Scenario {
    const char* name;
    Body body;
    int quick_bound;      // preemption/deviation bound, quick tier
    int thorough_bound;   // thorough tier
    unsigned flags;
    Scenario* next;
    Scenario(const char* n, Body b, int qb, int tb, unsigned f = F_NONE);
};

// Branch: all values 0..n-1 are explored, at no deviation cost.
int choose(int n, const char* what = nullptr);
// Report that the property does not hold on this execution; ends the execution.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Record the externally visible result of this execution (distinct outcomes are counted).
void outcome(const std::string& s);
// Note shown in traces.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Index of the calling thread inside the execution (0 = scenario body).
int self();
// Call/return marks of an operation history: *at receives a number just before the calling thread's next
// visible operation, stamp_ret() returns one just after its last; numbers grow with the schedule.
void stamp_call(uint64_t* at);
uint64_t stamp_ret();
// Virtual milliseconds since the start of the execution.
uint64_t now_ms();
// The wall clock (not the steady one) is set forward or back by this much.
void set_clock(long long ns);
// Is every other thread finished or blocked for good? (used by end-of-run oracles)
int live_threads();
// Scenario parameter override (from the command line: --set k=v), for debugging.
long param(const char* name, long dflt);
// A scratch directory that is removed after the execution.
const char* scratch();
// Runs the process exit sequence (static destructors, atexit) inside the execution; `after` runs last.
[[noreturn]] void exit_process(void (*after)());

}  // namespace lmc

#define LMC_CHECK(cond, ...) do { if (!(cond)) ::lmc::fail(__VA_ARGS__); } while (0)
#define LMC_SCENARIO(name, qb, tb, flags)                                   \
    static void lmc_body_##name();                                          \
    static ::lmc::Scenario lmc_scn_##name(#name, &lmc_body_##name, qb, tb, flags); \
    static void lmc_body_##name()
