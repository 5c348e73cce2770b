// Controlled runtime: OpenMP (libgomp ABI), pthreads, futures, clock and
// allocation are served by this runtime instead of the system's, so that
// every decision the environment makes is a choice point of an explorer.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc {

enum Kind : uint8_t { K_SCHED = 0, K_CLOCK = 1, K_ENV = 2 };

struct Node { uint16_t n; uint16_t chosen; uint8_t kind; };

// ---- explorer -------------------------------------------------------
struct Bounds {
  int  max_dev_sched = 1 << 30;  // deviations from the base scheduler
  int  max_dev_clock = 1 << 30;  // deviations of the clock from its base
  size_t horizon = 1 << 30;      // choice points after this index are not varied
  uint64_t max_exec = ~0ull;     // executions
  double   max_wall = 1e18;      // seconds (real)
};
struct Result {
  uint64_t executions = 0, states = 0, transitions = 0;
  bool exhaustive = true;        // whole bounded space covered
  size_t max_depth = 0;
  uint64_t multi_thread_exec = 0; // executions in which >=1 sched choice had an alternative
};
// Base schedulers used at choices that are not varied
enum Base { CONTINUE = 0, ROUND_ROBIN = 1, REVERSE = 2 };
void set_base(Base b);

// Runs `exec` once for every choice sequence within the bounds.
// exec returns "" when all is well, otherwise a description.
// on_fail gets description and choice sequence; return false to stop.
Result explore(const Bounds&, const std::function<std::string()>& exec,
               const std::function<bool(const std::string&, const std::string&)>& on_fail);
// Runs once with the given choice sequence ("0,1,0,...").
std::string run_with(const std::string& choices, const std::function<std::string()>& exec);
std::string current_choices();    // of the running / last execution
int  choose(int n, Kind k);       // 0 outside explore
bool exploring();

// hook called on deadlock / livelock / race inside an execution; must not return
extern void (*fatal_hook)(const std::string& what);
// races etc. are collected here; explore() treats a non-empty list as failure
void report(const std::string& what);
std::string take_reports();

// ---- environment ----------------------------------------------------
void set_max_threads(int n);       // omp_get_max_threads / num_procs
// clock: list of increments in microseconds; index 0 is the base choice.
void set_clock_alphabet(const std::vector<int64_t>& us);
void set_clock_script(const std::function<int64_t()>& f); // returns increment; overrides alphabet
void reset_clock();
uint64_t clock_calls();
uint64_t regions_multi();          // parallel regions with >1 thread started
uint64_t team_members();
void yield_here();
int  self();                       // controlled thread id
// allocation faults: allocation number `at` (0-based, counted since arm) fails
// mode 0 off, 1 only that one, 2 that and all later
void fault_arm(int mode, uint64_t at);
void fault_pause();                // no faults from here on, the counters stay
uint64_t fault_count();            // allocations counted since arm
uint64_t fault_hits();
// event counters used by checks
extern bool tsan_on;
uint64_t tsan_accesses();
void tsan_watch(const void* p, size_t n); // accesses to this range become scheduling points (n = 0: off)
}
