// mc: exhaustive enumeration of operation sequences, inputs and environment answers on the real code.
// A scenario body is re-executed from scratch for every choice vector; see DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace mc {

enum Flags : unsigned { F_NONE = 0, F_FORK = 1 /* every execution in a process of its own */ };

struct Scenario {
    const char* name; void (*body)(); int quick_depth, thorough_depth, quick_dev, thorough_dev; unsigned flags; Scenario* next;
    Scenario(const char* n, void (*b)(), int qd, int td, int qv, int tv, unsigned f);
};
// All of 0..n-1 are explored.
int choose(int n);
// As choose(), but an answer other than 0 is a deviation; when the deviation budget is used up the answer is 0.
int deviate(int n);
// A canonical description of everything the future of this execution can depend on, with the number of
// operations still to come: an execution that reaches a state already explored with at least that many is cut.
void state(const std::string& canonical, int remaining);
// One step of the history (shown with a violation).
void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void outcome(const std::string& s);
[[noreturn]] void finish();    // ends this execution here (only with F_FORK): the process dies without running anything further
int depth();                   // depth of this scenario in this tier
bool thorough();
const char* scratch();         // a directory of this worker; emptied before every execution that calls it
std::string quote(const std::string& s);
void count(uint64_t n);        // n further comparisons were made inside this execution (bulk checks)

}  // namespace mc

#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)
#define MC_SCENARIO(name, qd, td, qv, tv, flags)                                     \
    static void mc_body_##name();                                                    \
    static ::mc::Scenario mc_scn_##name(#name, &mc_body_##name, qd, td, qv, tv, flags); \
    static void mc_body_##name()
