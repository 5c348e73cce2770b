// Defining sums of the partial formulas, straight from the definitions.
// Arithmetic is modulo 2^128 (every value is far below that).
#pragma once
#include "common.h"
#include <algorithm>
namespace L {
typedef unsigned __int128 u128;
inline int c_of(uint64_t y) { return (int) std::min<uint64_t>(6, O::pi_small(std::min<uint64_t>(y, 1000))); }
// sum of the n in [1, x] with no prime factor among the first a primes
inline u128 phisum(u128 x, int a) {
  if (x == 0) return 0;
  if (a == 0) { u128 p = x, q = x + 1; if (p & 1) q >>= 1; else p >>= 1; return p * q; }
  uint64_t p = O::small_primes()[a - 1];
  return phisum(x, a - 1) - (u128) p * phisum(x / p, a - 1);
}
// ordinary leaves
struct S1 {
  u128 x; uint64_t y; int c; const std::vector<uint64_t>& p; u128 s = 0;
  S1(u128 x, uint64_t y, int c, const std::vector<uint64_t>& primes) : x(x), y(y), c(c), p(primes) { rec(1, c, false); }
  void rec(uint64_t n, size_t i, bool neg) { // i: index of the next usable prime
    u128 t = (u128) n * phisum(x / n, c);
    s += neg ? (u128) 0 - t : t;
    for (; i < p.size() && n * p[i] <= y; i++) rec(n * p[i], i + 1, !neg);
  }
};
// sum over y < p <= sqrt(x) of p * (sum of the primes q with p <= q <= x/p); works at any size, the primes lie in (y, x/y]
inline u128 P2(u128 x, uint64_t y) {
  uint64_t r = O::isqrt(x), hi = (uint64_t) (x / std::max<uint64_t>(y, 1));
  if (r <= y) return 0;
  std::vector<uint64_t> q = O::primes_in(y + 1, hi);
  u128 s = 0, t = 0; // t = sum of q[i..j-1]
  size_t i = 0, n = q.size(); if (!n) return 0;
  size_t j = 0; u128 pre = 0;
  std::vector<u128> P(n + 1, 0); for (size_t k = 0; k < n; k++) P[k+1] = P[k] + q[k];
  (void) t; (void) j; (void) pre;
  size_t e = n;
  for (i = 0; i < n && q[i] <= r; i++) {
    uint64_t m = (uint64_t) (x / q[i]);
    while (e > 0 && q[e-1] > m) e--;
    if (e > i) s += (P[e] - P[i]) * q[i];
  }
  return s;
}
// the same through prefix sums of all primes (cheaper when x/y is small)
struct Split { u128 trivial = 0, easy = 0, hard = 0; };
// all special leaves by a naive sieve of [1, z] (small z only)
inline Split naive(uint64_t x, uint64_t y) {
  uint64_t z = x / y; int c = c_of(y);
  std::vector<uint64_t> p = O::primes_in(2, y);
  std::vector<uint32_t> lpf(y + 1, 0); std::vector<int> mu(y + 1, 1);
  for (uint64_t q : p) for (uint64_t m = q; m <= y; m += q) { if (!lpf[m]) lpf[m] = (uint32_t) q; mu[m] = m / q % q ? -mu[m] : 0; }
  std::vector<char> live(z + 1, 1); live[0] = 0;
  std::vector<u128> ps(z + 1, 0);
  uint64_t ry = O::isqrt(y), rz = O::isqrt(z), r3 = O::iroot(x, 3);
  uint64_t bsy = O::pi_small(ry);
  uint64_t pc = c ? p[c - 1] : 2; // the first prime when c is 0 or 1
  Split r;
  for (size_t b = 1; b <= p.size(); b++) {
    uint64_t pb = p[b - 1];
    if ((int) b > c) {
      for (uint64_t n = 1; n <= z; n++) ps[n] = ps[n-1] + (live[n] ? n : 0);
      for (uint64_t m = y / pb + 1; m <= y; m++) {
        if (m < 2 || !mu[m] || lpf[m] <= pb) continue;
        u128 v = (u128) m * pb * ps[x / (m * pb)]; if (mu[m] > 0) v = (u128) 0 - v;
        bool prime = lpf[m] == m;
        if (prime && pb > std::max(pc, rz) && m > x / pb / pb) r.trivial += v;
        else if (prime && b > std::max<uint64_t>(c, bsy) && pb <= r3 && m <= std::min(x / pb / pb, y) && m > std::max({z / pb, y / pb, pb})) r.easy += v;
        else r.hard += v;
      }
    }
    for (uint64_t n = pb; n <= z; n += pb) live[n] = 0;
  }
  return r;
}
// trivial and easy leaves by enumeration of the prime pairs; `lim` bounds the pairs (0: no bound). false if over the bound
inline bool trivial_easy(u128 x, uint64_t y, Split& r, uint64_t lim = 0) {
  uint64_t z = (uint64_t) (x / y); int c = c_of(y);
  std::vector<uint64_t> p = O::primes_in(2, y);
  size_t n = p.size();
  std::vector<u128> P(n + 1, 0); for (size_t k = 0; k < n; k++) P[k+1] = P[k] + p[k];
  auto pi = [&](uint64_t v) { return (size_t) (std::upper_bound(p.begin(), p.end(), v) - p.begin()); };
  uint64_t ry = O::isqrt(y), rz = O::isqrt(z), r3 = O::iroot(x, 3);
  uint64_t pc = c ? p[c - 1] : 2;
  for (size_t i = pi(std::max(pc, rz)); i < n; i++) {
    uint64_t q = p[i]; u128 lo = std::max<u128>(x / q / q, q);
    if (lo >= y) continue;
    r.trivial += (u128) q * (P[n] - P[pi((uint64_t) lo)]);
  }
  uint64_t pairs = 0;
  for (size_t i = std::max<size_t>(c, pi(ry)); i < n && p[i] <= r3; i++) {
    uint64_t q = p[i], hi = (uint64_t) std::min<u128>(x / q / q, y), lo = std::max({z / q, y / q, q});
    if (hi <= lo) continue;
    size_t a = pi(lo), b = pi(hi);
    pairs += b - a; if (lim && pairs > lim) return false;
    u128 xq = x / q; u128 s = 0;
    if (b == a) continue;
    size_t k = pi((uint64_t) (xq / p[b-1]));
    for (size_t l = b; l > a; l--) {
      uint64_t xn = (uint64_t) xq == xq ? (uint64_t) xq / p[l-1] : (uint64_t) (xq / p[l-1]);
      while (k < n && p[k] <= xn) k++;
      s += (P[k] - P[i] + 1) * p[l-1];
    }
    r.easy += s * q;
  }
  return true;
}
}
