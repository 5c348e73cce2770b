// Harness support: sharding, counters, violations, watchdog, and oracles that
// share no code with the repository.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>
#include <unordered_set>

typedef unsigned __int128 u128;
typedef __int128 i128;

namespace H {
extern int shard, shards; extern bool thorough;
extern uint64_t evals, distinct, states, transitions, traces;
extern bool exhaustive;
bool mine(uint64_t k);                   // does case number k belong to this shard
bool on(const char* family);             // is this family selected
void init(int argc, char** argv);
void begin(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // names the current case
void viol(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // reports; ends the run after a few
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* key, uint64_t add); // additional counters of the evidence
int done();
bool time_left();                        // within --budget seconds
double elapsed();
std::string opt(const char* name, const char* def);
long nviol();
// runs fn with stdout captured
std::string capture(const std::function<void()>& fn);
std::string s128(i128 v);
i128 p128(const std::string& s);
// forked run of a C++ main-like function
struct Proc { int status; bool exited; int code; int sig; std::string out, err; bool timeout; };
Proc run_forked(const std::function<int()>& fn, double cpu_limit_s);
}

namespace O {
const std::vector<uint32_t>& small_primes();          // < 2^20
std::vector<uint64_t> primes_in(uint64_t lo, uint64_t hi); // inclusive, independent segmented sieve; hi < 2^64-1
uint64_t count_in(uint64_t lo, uint64_t hi);
bool is_prime(uint64_t n);                              // deterministic Miller-Rabin
uint64_t next_prime(uint64_t n);                        // smallest > n (0 if none below 2^64)
uint64_t prev_prime(uint64_t n);                        // largest < n (0 if none)
u128 prime_sum_small(uint64_t x);                       // x < 2^27, table
uint64_t pi_small(uint64_t x);
u128 prime_sum(uint64_t x);                             // any x: nearest anchor + sieve, Lucy when none is near
u128 lucy_sum(uint64_t x);
uint64_t lucy_count(uint64_t x);
bool anchor(uint64_t x, u128& s);
void load_anchors(const char* path);
const std::vector<uint64_t>& anchor_keys();
// the integers around structural boundaries up to `max`
std::vector<uint64_t> structured(uint64_t max, int dense);
uint64_t isqrt(u128 n);                                 // by bisection
uint64_t iroot(u128 n, int k);
}
