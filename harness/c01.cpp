// C01: primesum::pi against independent prime sums.
#include "num.h"
using namespace primesum;
static void one(uint64_t x, u128 want, int threads, bool text) {
  H::evals++;
  if (text) {
    std::string r = primesum::pi(std::to_string(x), threads);
    if (r != H::s128((i128) want)) H::viol("pi(\"%llu\", threads=%d) = %s, the sum of the primes is %s", (unsigned long long) x, threads, r.c_str(), H::s128((i128) want).c_str());
  } else {
    int256_t r = primesum::pi((int128_t) x, threads);
    if (!same(r, (i128) want)) H::viol("pi(%llu, threads=%d) = %s, the sum of the primes is %s", (unsigned long long) x, threads, str(r).c_str(), H::s128((i128) want).c_str());
  }
  if (want) H::distinct++;
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  mc::set_max_threads(8);
  if (H::on("dense")) {
    // every x in blocks dealt to the shards
    uint64_t N = H::thorough ? 20000000 : 2000000, B = 2000;
    for (uint64_t b = 0; b * B < N; b++) {
      if (!H::mine(b)) continue;
      if (!H::time_left()) break;
      u128 s = b ? O::prime_sum_small(b * B - 1) : 0;
      for (uint64_t x = b * B; x < (b + 1) * B; x++) {
        s = O::prime_sum_small(x);
        H::begin("pi(%llu)", (unsigned long long) x);
        one(x, s, 1, x % 16 == 0);
      }
    }
    H::sample("every x in [0, %llu): pi(x) compared with a plain sieve", (unsigned long long) N);
    if (H::shard == 0) {
      for (const char* e : {"-1", "-2", "-1000000", "-9223372036854775808", "-9223372036854775809", "-18446744073709551615", "-170141183460469231731687303715884105727", "0", "1"}) {
        H::begin("pi(\"%s\")", e); H::evals++;
        std::string r = primesum::pi(std::string(e)); if (r != "0") H::viol("pi(\"%s\") = %s, expected 0", e, r.c_str());
        int256_t v = primesum::pi((int128_t) H::p128(e), 4); if (v != 0) H::viol("pi(%s) = %s, expected 0", e, str(v).c_str());
      }
    }
  }
  if (H::on("structured")) {
    uint64_t max = (uint64_t) (H::thorough ? 1e14 : 1e13);
    std::vector<uint64_t> xs;
    for (uint64_t x : O::structured((1ull << 24) - 1, 3)) xs.push_back(x);
    for (uint64_t x : O::anchor_keys()) if (x >= (1ull << 24) && x <= max) xs.push_back(x);
    // heavy ones are thinned in the quick tier: one per cluster of neighbours
    // (the largest first: the deal then balances the shards)
    std::reverse(xs.begin(), xs.end());
    uint64_t k = 0;
    for (size_t i = 0; i < xs.size(); i++) {
      uint64_t x = xs[i];
      if (!H::thorough && x > 100000000000ull && i && xs[i-1] - x < 4 && i % 4) continue;
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      u128 w = O::prime_sum(x);
      H::begin("pi(%llu)", (unsigned long long) x);
      one(x, w, 1, true);
      if (k % 64 < 8) H::sample("pi(%llu) = %s", (unsigned long long) x, H::s128((i128) w).c_str());
      if (x < 10000000000ull) { one(x, w, 2, false); one(x, w, 5, false); }
    }
  }
  if (H::on("published")) {
    // powers of ten listed in the project's README (and in OEIS A046731)
    struct { const char* x; const char* s; int cost; } T[] = {
      {"10000000000", "2220822432581729238", 0}, {"100000000000", "201467077743744681014", 0}, {"1000000000000", "18435588552550705911377", 0},
      {"10000000000000", "1699246443377779418889494", 0}, {"100000000000000", "157589260710736940541561021", 0},
      {"1000000000000000", "14692398516908006398225702366", 0}, {"10000000000000000", "1376110854313351899159632866552", 0},
      {"100000000000000000", "129408626276669278966252031311350", 1}, {"1000000000000000000", "12212914292949226570880576733896687", 1},
      {"10000000000000000000", "1156251260549368082781614413945980126", 1}};
    for (int i = 0; i < 10; i++) {
      if (T[i].cost && !H::thorough) continue;
      if (!H::mine(i)) continue;
      H::begin("pi(%s)", T[i].x); H::evals++; H::distinct++;
      std::string r = primesum::pi(std::string(T[i].x), 8);
      if (r != T[i].s) H::viol("pi(%s) = %s, the published sum is %s", T[i].x, r.c_str(), T[i].s);
      H::sample("pi(%s) = %s", T[i].x, T[i].s);
    }
  }
  if (H::on("ladder")) {
    // a geometric ladder with steps that are coprime to everything structured
    double q = H::thorough ? 1.002 : 1.01; uint64_t top = (uint64_t) (H::thorough ? 2e11 : 4e10);
    uint64_t k = 0; std::vector<uint64_t> xs;
    for (double v = 2000003; v < (double) top; v *= q) xs.push_back((uint64_t) v);
    std::reverse(xs.begin(), xs.end());
    for (uint64_t x : xs) {
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      H::begin("pi(%llu) (oracle)", (unsigned long long) x);
      u128 w = O::prime_sum(x);
      H::begin("pi(%llu)", (unsigned long long) x);
      one(x, w, 1, false); one(x, w, 3, false);
    }
    H::sample("geometric ladder of %zu values up to %llu, ratio %g", xs.size(), (unsigned long long) top, q);
  }
  return H::done();
}
