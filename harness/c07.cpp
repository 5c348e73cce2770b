// C07: every partial formula against its defining sum.
#include "num.h"
#include "leaves.h"
#include <unistd.h>
using namespace primesum;
static uint64_t U(uint64_t v) { return v; }
static void cmp(const char* what, const int256_t& got, u128 want, u128 x, uint64_t y, int t) {
  H::evals++; if (want) H::distinct++;
  if (!same(got, (i128) want)) H::viol("%s(x=%s, y=%llu, z=%s, c=%d, threads=%d) = %s, its definition gives %s", what, H::s128((i128) x).c_str(), (unsigned long long) y, H::s128((i128) (x / y)).c_str(), L::c_of(y), t, str(got).c_str(), H::s128((i128) want).c_str());
}
static u128 p2_naive(uint64_t x, uint64_t y) { // through the table of all prime sums
  u128 s = 0; uint64_t r = O::isqrt(x);
  for (uint64_t p : O::primes_in(y + 1, r)) s += (u128) p * (O::prime_sum_small(x / p) - O::prime_sum_small(p - 1));
  return s;
}
static void all(uint64_t x, uint64_t y, int t, const L::Split& s) {
  int64_t z = x / y; int64_t c = PhiTiny::get_c(y);
  if (c != L::c_of(y)) H::viol("get_c(%llu) = %lld", (unsigned long long) y, (long long) c);
  auto primes = O::primes_in(2, y);
  H::begin("S1(%llu,%llu) threads %d", (unsigned long long) x, (unsigned long long) y, t); u128 s1 = L::S1(x, y, c, primes).s; cmp("S1", S1(x, y, c, t), s1, x, y, t);
  H::begin("P2(%llu,%llu) threads %d", (unsigned long long) x, (unsigned long long) y, t); u128 p2 = L::P2(x, y); cmp("P2", P2(x, y, t), p2, x, y, t);
  H::begin("S2_trivial(%llu,%llu) threads %d", (unsigned long long) x, (unsigned long long) y, t); cmp("S2_trivial", S2_trivial(x, y, z, c, t), s.trivial, x, y, t);
  H::begin("S2_easy(%llu,%llu) threads %d", (unsigned long long) x, (unsigned long long) y, t); cmp("S2_easy", S2_easy(x, y, z, c, t), s.easy, x, y, t);
  H::begin("S2_hard(%llu,%llu) threads %d", (unsigned long long) x, (unsigned long long) y, t); cmp("S2_hard", S2_hard(x, y, z, c, t), s.hard, x, y, t);
}
static void selfcheck(uint64_t x, uint64_t y, const L::Split& s) { // the definitions add up to the prime sum
  auto primes = O::primes_in(2, y);
  u128 tot = L::S1(x, y, L::c_of(y), primes).s + s.trivial + s.easy + s.hard + O::prime_sum_small(y) - 1 - L::P2(x, y);
  if (tot != O::prime_sum(x)) { fprintf(stderr, "oracle inconsistent at x=%llu y=%llu\n", (unsigned long long) x, (unsigned long long) y); _exit(70); }
  H::note("oracle identities checked", 1);
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  O::prime_sum_small(1 << 22);
  if (H::on("dense")) { // every x, every y the program can be made to use
    uint64_t N = H::thorough ? 12000 : 4000;
    for (uint64_t x = 1; x < N; x++) {
      if (!H::mine(x)) continue;
      if (!H::time_left()) break;
      for (uint64_t y = ymin(x); y <= (uint64_t) ymax(x); y++) {
        L::Split s = L::naive(x, y); selfcheck(x, y, s);
        all(x, y, 1 + (x + y) % 3, s);
      }
    }
    H::sample("every x < %llu with every y in [x^(1/3), x^(1/3)*x^(1/6)]", (unsigned long long) N);
  }
  if (H::on("naive")) { // larger x, structural y, all leaves by sieving
    uint64_t max = H::thorough ? 300000000 : 10000000, k = 0;
    std::vector<uint64_t> xs = O::structured(max, 1); std::reverse(xs.begin(), xs.end());
    for (uint64_t x : xs) {
      if (x < 4000) continue;
      uint64_t a = ymin(x), b = ymax(x);
      std::set<uint64_t> ys = {a, a + 1, b, b - 1, (a + b) / 2, (uint64_t) std::sqrt((double) a * b)};
      for (uint64_t p = O::next_prime(isq(a)); p * p <= b; p = O::next_prime(p + (H::thorough ? 0 : p / 4))) { ys.insert(p * p); ys.insert(p * p - 1); ys.insert(p * p + 1); ys.insert(O::next_prime(p * p)); }
      for (uint64_t y : ys) {
        if (y < a || y > b) continue;
        if (!H::mine(k++)) continue;
        if (!H::time_left()) break;
        L::Split s = L::naive(x, y); 
        { L::Split e; L::trivial_easy(x, y, e); if (e.easy != s.easy || e.trivial != s.trivial) { fprintf(stderr, "oracles disagree at x=%llu y=%llu\n", (unsigned long long) x, (unsigned long long) y); _exit(70); } }
        selfcheck(x, y, s);
        all(x, y, 1 + k % 4, s);
        H::sample("x=%llu y=%llu: all five partial sums", (unsigned long long) x, (unsigned long long) y);
      }
    }
  }
  if (H::on("pairs")) { // large x: trivial/easy leaves by pairs, hard leaves by difference from the prime sum
    uint64_t max = (uint64_t) (H::thorough ? 2e12 : 5e10), k = 0;
    std::vector<uint64_t> xs; for (uint64_t x : O::anchor_keys()) if (x >= 1000000000ull && x <= max) xs.push_back(x);
    std::reverse(xs.begin(), xs.end());
    for (size_t i = 0; i < xs.size(); i++) {
      uint64_t x = xs[i];
      if (!H::thorough && i % 6) continue;
      uint64_t a = ymin(x), b = ymax(x);
      uint64_t ys[] = {a, (uint64_t) (a * std::pow((double) b / a, 0.25)), (uint64_t) (a * std::pow((double) b / a, 0.5)), b};
      for (int j = 0; j < 4; j++) {
        uint64_t y = ys[j]; if (!H::mine(k++)) continue;
        if (!H::thorough && j == 3 && x > 10000000000ull) continue;
        if (!H::time_left()) break;
        auto primes = O::primes_in(2, y);
        L::Split s; H::begin("oracle x=%llu y=%llu", (unsigned long long) x, (unsigned long long) y);
        L::trivial_easy(x, y, s);
        s.hard = O::prime_sum(x) - L::S1(x, y, L::c_of(y), primes).s - s.trivial - s.easy - O::prime_sum_small(y) + 1 + L::P2(x, y);
        all(x, y, 1 + k % 8, s);
        H::sample("x=%llu y=%llu: all five partial sums", (unsigned long long) x, (unsigned long long) y);
      }
    }
  }
  if (H::on("borders")) { // trivial leaves by real teams: the threads' shares end on every kind of number
    uint64_t k = 0;
    for (int t : {2, 3, 4}) for (uint64_t i = 0; i < (H::thorough ? 400u : 60u); i++) {
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      uint64_t y = 10000000ull * t + i * (i % 2 ? 3 : 2) * t; u128 x = (u128) y * y * (y / (i % 3 ? 50 : 3000)); uint64_t z = (uint64_t) (x / y);
      H::begin("S2_trivial(%s, %llu) threads %d", H::s128((i128) x).c_str(), (unsigned long long) y, t);
      static std::vector<uint64_t> pr; static std::vector<u128> ps; static uint64_t ymax_ = 0;
      if (ymax_ < y) { ymax_ = y + 20000; pr = O::primes_in(2, ymax_); ps.assign(pr.size() + 1, 0); for (size_t j = 0; j < pr.size(); j++) ps[j + 1] = ps[j] + pr[j]; }
      auto pi = [&](uint64_t v) { return (size_t) (std::upper_bound(pr.begin(), pr.end(), v) - pr.begin()); };
      u128 want = 0, top = ps[pi(y)]; uint64_t from = std::max<uint64_t>(O::isqrt(z), 13);
      size_t q = pi(y);
      for (size_t j = pi(from); j < pr.size() && pr[j] < y; j++) { uint64_t p = pr[j]; u128 m = x / ((u128) p * p); if (m >= y) continue; uint64_t xn = std::max((uint64_t) m, p); if (xn == p) q = j + 1; else { while (q > 0 && pr[q - 1] > xn) q--; } want += (u128) p * (top - ps[q]); }
      cmp("S2_trivial", S2_trivial((int128_t) x, y, z, 6, t), want, x, y, t);
    }
    H::sample("S2_trivial with shares of 10^7 numbers per thread ending at contiguous numbers, 2 to 4 threads");
  }
  if (H::on("wide")) { // x around 2^63, 2^64 and above: the wide instantiations of S1, P2, trivial and easy leaves
    std::vector<u128> xs; for (int b : {63, 64}) for (int d : {-2, -1, 0, 1}) xs.push_back(((u128) 1 << b) + d);
    xs.push_back((u128) 10000000000ull * 10000000000ull); if (H::thorough) { xs.push_back((u128) 1 << 68); xs.push_back(((u128) 1 << 70) + 12345); }
    uint64_t k = 0;
    for (u128 x : xs) {
      uint64_t r = O::isqrt(x), r3 = O::iroot(x, 3);
      std::string xt = H::s128((i128) x);
      for (uint64_t d : {300ull, 4000ull, 1000000ull}) {
        if (!H::mine(k++)) continue;
        if (!H::thorough && (d != 4000 || x % 2 == 0)) continue;
        if (!H::time_left()) break;
        uint64_t y = r - d; H::begin("P2(%s, %llu)", xt.c_str(), (unsigned long long) y);
        cmp("P2", P2((int128_t) x, y, 2), L::P2(x, y), x, y, 2);
      }
      for (double al : {1.0, 1.01, 1.03, 1.1, 1.3}) {
        if (!H::mine(k++)) continue;
        if (!H::thorough && (al > 1.05 || (x >> 64) > 1)) continue;
        if (!H::time_left()) break;
        uint64_t y = (uint64_t) (r3 * al); int64_t z = (int64_t) (x / y), c = 6; int t = 1 + k % 4;
        H::begin("wide oracle %s %llu", xt.c_str(), (unsigned long long) y);
        auto primes = O::primes_in(2, y);
        L::Split s; L::trivial_easy(x, y, s);
        H::begin("S2_trivial(%s, %llu)", xt.c_str(), (unsigned long long) y); cmp("S2_trivial", S2_trivial((int128_t) x, y, z, c, t), s.trivial, x, y, t);
        H::begin("S2_easy(%s, %llu)", xt.c_str(), (unsigned long long) y); cmp("S2_easy", S2_easy((int128_t) x, y, z, c, t), s.easy, x, y, t);
        if (al < 1.02) {
          // the value exceeds 128 bits: compared modulo 2^128 (the sum modulo 2^128 of products of exact terms)
          H::begin("S1(%s, %llu)", xt.c_str(), (unsigned long long) y); int256_t v = S1((int128_t) x, y, c, t); u128 w = L::S1(x, y, 6, primes).s;
          H::evals++; H::distinct++;
          if ((uint128_t) v != w) H::viol("S1(x=%s, y=%llu, threads=%d) = %s, modulo 2^128 its definition gives %s", xt.c_str(), (unsigned long long) y, t, str(v).c_str(), H::s128((i128) w).c_str());
        }
        H::sample("x=%s y=%llu: trivial, easy, ordinary leaves", xt.c_str(), (unsigned long long) y);
      }
    }
  }
  (void) U;
  return H::done();
}
