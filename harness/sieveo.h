// Oracle for primes and prime k-tuplets of intervals: from lists made by the independent sieve.
#pragma once
#include "common.h"
#include <algorithm>
#include <vector>
namespace SO {
typedef uint64_t u64;
// admissible patterns, by number of members minus one
static const std::vector<std::vector<std::vector<u64>>> PAT = {
  {{0}}, {{0, 2}}, {{0, 2, 6}, {0, 4, 6}}, {{0, 2, 6, 8}}, {{0, 2, 6, 8, 12}, {0, 4, 6, 10, 12}}, {{0, 4, 6, 10, 12, 16}}};
// everything about the primes in [lo, hi]
struct Tab {
  u64 lo, hi; std::vector<u64> p;
  struct Tup { u64 first, last; std::vector<u64> m; };
  std::vector<u64> first[6], last[6]; // sorted independently
  std::vector<Tup> tup[6];
  Tab(u64 lo, u64 hi) : lo(lo), hi(hi), p(O::primes_in(lo, hi)) {
    for (int k = 0; k < 6; k++) {
      for (size_t i = 0; i < p.size(); i++) for (auto& pat : PAT[k]) {
        bool ok = true; size_t j = i; std::vector<u64> m;
        for (u64 d : pat) { while (j < p.size() && p[j] - p[i] < d) j++; if (j >= p.size() || p[j] - p[i] != d) { ok = false; break; } if (k) m.push_back(p[j]); }
        if (ok) { first[k].push_back(p[i]); last[k].push_back(p[i] + pat.back()); if (k) tup[k].push_back({p[i], p[i] + pat.back(), m}); }
      }
      std::sort(first[k].begin(), first[k].end()); std::sort(last[k].begin(), last[k].end());
    }
  }
  // number of k-tuplets whose members all lie in [a, b]; lo <= a, b <= hi
  u64 count(int k, u64 a, u64 b) const {
    if (a > b) return 0;
    u64 c = 0;
    if (b - a <= 18 || k == 0) { // tuplets may start and end outside: count directly
      auto s = std::lower_bound(p.begin(), p.end(), a);
      if (k == 0) return std::upper_bound(p.begin(), p.end(), b) - s;
      for (auto it = s; it != p.end() && *it <= b; ++it) for (auto& pat : PAT[k]) {
        if (b - *it < pat.back()) continue;
        bool ok = true; for (u64 d : pat) ok = ok && std::binary_search(s, p.end(), *it + d);
        c += ok;
      }
      return c;
    }
    // no tuplet spans more than 16, so one that ends by b but starts before a ends before a + 16 <= b
    u64 e = std::upper_bound(last[k].begin(), last[k].end(), b) - last[k].begin();
    u64 f = std::lower_bound(first[k].begin(), first[k].end(), a) - first[k].begin();
    return e - f;
  }
};
static const char* NAME[6] = {"primes", "twins", "triplets", "quadruplets", "quintuplets", "sextuplets"};
}
