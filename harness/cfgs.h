// The parallel computations explored under the controlled scheduler, with their single-threaded definitions.
#pragma once
#include "algos.h"
#include "FactorTable.hpp"
using namespace primesum;
struct Cfg { std::string name; int weight; std::function<int256_t(int)> f; std::function<u128()> want; std::vector<int> teams; };
static std::vector<Cfg> cfgs() {
  std::vector<Cfg> v;
  auto leaves = [](uint64_t x, uint64_t y) { L::Split s; L::trivial_easy(x, y, s); return s; };
  auto hard = [leaves](uint64_t x, uint64_t y) { L::Split s = leaves(x, y); auto p = O::primes_in(2, y); return O::prime_sum(x) - L::S1(x, y, L::c_of(y), p).s - s.trivial - s.easy - O::prime_sum_small(y) + 1 + L::P2(x, y); };
  auto A = [&](const char* n, uint64_t x, uint64_t y, int w, std::function<int256_t(int)> f, std::function<u128()> want, std::vector<int> teams) {
    char b[100]; snprintf(b, sizeof b, "%s(x=%llu, y=%llu)", n, (unsigned long long) x, (unsigned long long) y); v.push_back({b, w, f, want, teams});
  };
  auto z = [](uint64_t x, uint64_t y) { return (int64_t) (x / y); };
  auto c = [](uint64_t y) { return (int64_t) L::c_of(y); };
  for (auto [x, y, w] : std::vector<std::tuple<uint64_t, uint64_t, int>>{{8100000000ull, 2100, 1}, {30000000000ull, 4000, 2}, {70000000000ull, 9000, 2}})
    A("S2_easy", x, y, w, [=](int t) { return S2_easy(x, y, z(x, y), c(y), t); }, [=] { return leaves(x, y).easy; }, {2, 3, 4});
  for (auto [x, y, w] : std::vector<std::tuple<uint64_t, uint64_t, int>>{{100000000ull, 470, 1}, {1000000000ull, 1000, 1}, {1000000000ull, 5000, 1}, {30000000000ull, 3200, 3}, {123456789012ull, 12000, 3}})
    A("S2_hard", x, y, w, [=](int t) { return S2_hard(x, y, z(x, y), c(y), t); }, [=] { return hard(x, y); }, {2, 3, 5, 8});
  for (auto [x, y, w] : std::vector<std::tuple<uint64_t, uint64_t, int>>{{100000000000ull, 4700, 4}, {340000000000ull, 7000, 6}, {1000000000000ull, 30000, 5}})
    A("P2", x, y, w, [=](int t) { return P2(x, y, t); }, [=] { return L::P2(x, y); }, {2, 3, 4, 8});
  A("S1", 4100000000000ull, 2000100, 6, [](int t) { return S1(4100000000000ull, 2000100, 6, t); }, [] { auto p = O::primes_in(2, 2000100); return L::S1(4100000000000ull, 2000100, 6, p).s; }, {2, 3});
  A("S1", 9100000000000ull, 3000100, 8, [](int t) { return S1(9100000000000ull, 3000100, 6, t); }, [] { auto p = O::primes_in(2, 3000100); return L::S1(9100000000000ull, 3000100, 6, p).s; }, {3});
  A("S2_trivial", 1000000000000000ull, 30000001, 7, [=](int t) { return S2_trivial(1000000000000000ull, 30000001, z(1000000000000000ull, 30000001), 6, t); }, [=] { return leaves(1000000000000000ull, 30000001).trivial; }, {2, 3});
  A("S2_trivial", 2000000000000000ull, 20500000, 7, [=](int t) { return S2_trivial(2000000000000000ull, 20500000, z(2000000000000000ull, 20500000), 6, t); }, [=] { L::Split s; L::trivial_easy(2000000000000000ull, 20500000, s, 1); return s.trivial; }, {2});
  // phi: counts, with several chunks of 16
  for (auto [x, a, w] : std::vector<std::tuple<uint64_t, int, int>>{{20000000001ull, 60, 3}, {40000000007ull, 120, 4}, {90000000001ull, 40, 3}})
    A("phi", x, a, w, [=](int t) { return int256_t(phi(x, a, t)); }, [=] { std::function<u128(uint64_t, int)> ph = [&](uint64_t n, int k) -> u128 { u128 r = n; for (int i = 0; i < k; i++) { uint64_t p = O::small_primes()[i]; if (p > n) break; uint64_t m = n / p; if (m < p) { /* all later terms are 1 each */ int left = k - i; uint64_t cnt = O::pi_small(std::min<uint64_t>(n, O::small_primes()[k-1])) - i; r -= std::min<uint64_t>(cnt, left); break; } r -= ph(m, i); } return r; }; return ph(x, a); }, {2, 3, 4});
  for (uint64_t x : {20000000000ull, 50000000000ull}) A("pi_legendre", x, 0, 9, [=](int t) { return int256_t(pi_legendre(x, t)); }, [=] { return (u128) O::lucy_count(x); }, {2, 4});
  // whole computations
  for (uint64_t x : {10000000000ull, 40000000000ull}) { A("pi_deleglise_rivat", x, 0, 4, [=](int t) { return pi_deleglise_rivat(x, t); }, [=] { return O::prime_sum(x); }, {2, 3, 8}); }
  for (uint64_t x : {1000000000ull, 10000000000ull}) { A("pi_lmo_parallel1", x, 0, x > 2000000000 ? 9 : 3, [=](int t) { return pi_lmo_parallel1(x, t); }, [=] { return O::prime_sum(x); }, {2, 3, 8}); }
  // factor table built by a team
  A("FactorTable", 0, 20000000, 5, [](int t) { FactorTable<uint16_t> f(20000000, t); uint64_t h = 0; for (int64_t i = 1, n = 0; n < 4000000; i++, n++) { int64_t m = i; h += (uint64_t) (f.lpf(m) ? f.mu(m) : 0) * 3 + f.lpf(m) * (uint64_t) (i % 1009 + 1); if (f.get_number(i) > 19999000) break; } return int256_t((int64_t) (h & INT64_MAX)); }, nullptr, {2, 3});
  return v;
}
