#pragma once
#include "num.h"
#include "leaves.h"
struct Algo { const char* name; const char* opt; std::function<int256_t(i128, int)> f; uint64_t cheap; };
static const std::vector<Algo>& algos() {
  using namespace primesum;
  static std::vector<Algo> a = {
    {"pi_lmo1", "--lmo1", [](i128 x, int) { return pi_lmo1((int128_t) x); }, 20000000},
    {"pi_lmo2", "--lmo2", [](i128 x, int) { return pi_lmo2((int64_t) x); }, 40000000000ull},
    {"pi_lmo3", "--lmo3", [](i128 x, int) { return pi_lmo3((int64_t) x); }, 40000000000ull},
    {"pi_lmo4", "--lmo4", [](i128 x, int) { return pi_lmo4((int64_t) x); }, 40000000000ull},
    {"pi_lmo5", "--lmo5", [](i128 x, int) { return pi_lmo5((int64_t) x); }, 1000000000000ull},
    {"pi_lmo_parallel1", "--lmo_parallel1", [](i128 x, int t) { return pi_lmo_parallel1((int128_t) x, t); }, 1000000000000ull},
    {"pi_lmo", "--lmo", [](i128 x, int t) { return pi_lmo((int128_t) x, t); }, 1000000000000ull},
    {"pi_deleglise_rivat_parallel1", "--deleglise_rivat_parallel1", [](i128 x, int t) { return pi_deleglise_rivat_parallel1((int128_t) x, t); }, 1000000000000ull},
    {"pi_deleglise_rivat", "-d", [](i128 x, int t) { return pi_deleglise_rivat((int128_t) x, t); }, 1000000000000ull},
    {"pi", "--pi", [](i128 x, int t) { return pi((int128_t) x, t); }, 1000000000000ull},
  };
  return a;
}
static inline void check_algo(const Algo& a, uint64_t x, u128 w, int t) {
  H::evals++; if (w) H::distinct++;
  int256_t r = a.f(x, t);
  if (!same(r, (i128) w)) H::viol("%s(%llu) with %d threads = %s, the sum of the primes is %s", a.name, (unsigned long long) x, t, str(r).c_str(), H::s128((i128) w).c_str());
}
