// mcrt: a stateless model checker for pthread/C++ programs compiled with
// -fsanitize=thread and linked against this runtime instead of libtsan.
// See /verif/DESIGN.md section "Engine A".
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace mc {

struct Scenario {
    const char* name;
    void (*fn)();
    int bound_quick;      // deviation (preemption) bound, quick tier
    int bound_thorough;   // deviation bound, thorough tier
    int budget_quick;     // wall seconds, quick tier (soft cap)
    int budget_thorough;  // wall seconds, thorough tier
    bool spurious = false; // also explore spurious condition-variable wakeups
    int thorough_only = 0;
};

// Oracle failure: ends the execution with a violation.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Appends to the observed outcome of this execution (counted distinct).
void outcome(const std::string& s);
// Nondeterministic data choice in [0,n); alternatives cost `cost` deviations.
int choose(int n, int cost = 0);
// An explicit scheduling point (the current thread stays enabled).
void point();
// Explicitly visible shared variable (scheduling point + seq_cst semantics).
uint64_t var_load(uint64_t* p);
void var_store(uint64_t* p, uint64_t v);
// Blocks until *p >= v (visible wait).
void var_wait_ge(uint64_t* p, uint64_t v);
// Called from the SIGABRT handler: turns an expected abort into a normal end.
void on_abort(void (*fn)());
// Ends the execution successfully right now (skips what follows).
[[noreturn]] void done();
int tid();
// Number of visible steps executed so far by the calling thread.
uint64_t my_steps();
uint64_t total_steps();
// Marks a region in which the calling thread must not block, allocate, lock or
// issue an intercepted blocking call. label==nullptr ends the region.
void forbid_blocking(const char* label);
// True while the explorer controls the process (false in plain replay-free runs)
bool active();
// Count operator new calls by this thread.
uint64_t my_allocs();
// Disable exploration choices (run deterministically) while in setup code.
void quiet(bool on);
// True when every other thread is blocked/finished/spin-blocked (used by idle
// observers): blocks the caller until no other thread is enabled.
void wait_quiescent();
// exempt: suppress race detection on a range (harness-owned bookkeeping).
void exempt(const void* p, size_t n);

// With oracle(false), mc::fail() ends the execution without a violation: only the
// runtime detectors (races, lifetime, deadlock, crash) count.
void oracle(bool on);

// Run once, uncontrolled, before exploring (forces one-time initialisation).
void warmup(void (*fn)());

int main_(int argc, char** argv, const char* property, const char* rule,
          const std::vector<Scenario>& sc, const std::vector<std::string>& assumptions);
}
