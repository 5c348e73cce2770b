// C08: partial sieve functions and prime counting helpers.
#include "num.h"
#include "limb.h"
#include <PiTable.hpp>
namespace primesum { int64_t pi_legendre(int64_t x); }
using namespace primesum;
static uint64_t phi_or(uint64_t x, int a) { // counting recursion with the usual cut-offs proved by definition only
  if (a == 0 || x == 0) return x;
  uint64_t p = O::small_primes()[a - 1];
  if (x < p) return 1;
  return phi_or(x, a - 1) - phi_or(x / p, a - 1);
}
static W::M phisum_or(u128 x, int a) {
  if (x == 0) return W::of(0);
  if (a == 0) { u128 p = x, q = x + 1; if (p & 1) q >>= 1; else p >>= 1; return W::mul(W::of(p), W::of(q)); }
  uint64_t p = O::small_primes()[a - 1];
  if (x < p) return W::of(1);
  return W::sub(phisum_or(x, a - 1), W::mul(W::of(p), phisum_or(x / p, a - 1)));
}
static void c_phi(int64_t x, int64_t a, int t, uint64_t w) {
  H::begin("phi(%lld, %lld) threads %d", (long long) x, (long long) a, t); H::evals++; if (w) H::distinct++;
  int64_t r = phi(x, a, t);
  if (r != (int64_t) w) H::viol("phi(%lld, %lld) with %d threads = %lld, %llu integers qualify", (long long) x, (long long) a, t, (long long) r, (unsigned long long) w);
}
static void c_sum(u128 x, int64_t a, const W::M& w, bool both) {
  std::string xt = H::s128((i128) x); H::begin("phi_sum(%s, %lld)", xt.c_str(), (long long) a);
  std::string ws = W::dec(w);
  H::evals++; H::distinct++;
  int256_t r = phi_sum((int128_t) x, a);
  if (str(r) != ws) H::viol("phi_sum(int128 %s, %lld) = %s, the qualifying integers sum to %s", xt.c_str(), (long long) a, str(r).c_str(), ws.c_str());
  if (both && (x >> 63) == 0) { H::evals++; int128_t q = phi_sum((int64_t) x, a); if (H::s128(q) != ws) H::viol("phi_sum(int64 %s, %lld) = %s, the qualifying integers sum to %s", xt.c_str(), (long long) a, H::s128(q).c_str(), ws.c_str()); }
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  if (H::on("dense")) { // every x up to N, every a up to past pi(x): naive sieve
    int N = H::thorough ? 12000 : 2500;
    std::vector<uint64_t> pr = O::primes_in(2, N + 100);
    std::vector<char> live(N + 1, 1); live[0] = 0;
    for (int a = 0; a < (int) pr.size() && pr[a] <= (uint64_t) N + 60; a++) {
      if (a) for (uint64_t m = pr[a-1]; m <= (uint64_t) N; m += pr[a-1]) live[m] = 0;
      uint64_t cnt = 0; u128 s = 0;
      for (int x = 0; x <= N; x++) {
        if (live[x]) { cnt++; s += x; }
        if (!H::mine(a * 7 + x / 64)) continue;
        // only up to a few primes beyond x: more changes nothing, and phi allocates the first a primes
        if (a && pr[a-1] > (uint64_t) x + 60 && x > 60) continue;
        if (!H::time_left()) break;
        c_phi(x, a, 1 + (x + a) % 3, cnt);
        c_sum(x, a, W::of(s), x % 2 == 0);
      }
    }
    if (H::shard == 0) {
      for (int64_t x : {-1ll, -5ll, (long long) INT64_MIN, 0ll}) for (int64_t a : {0ll, 1ll, 5ll, 50ll}) {
        c_phi(x, a, 2, 0);
        H::evals++; if (phi_sum(x, a) != 0 || phi_sum((int128_t) x, a) != 0) H::viol("phi_sum(%lld, %lld) is not 0", (long long) x, (long long) a);
      }
      for (int64_t x : {1ll, 7ll, 1000000ll, 1ll << 40}) { c_phi(x, 0, 1, x); c_phi(x, -1, 1, x); }
      for (int64_t x : {1ll, 7ll, 1000ll}) { c_phi(x, x + 1, 1, 1); c_phi(x, INT64_MAX, 1, 1); }
      for (int64_t n = -3; n < 10; n++) { H::evals++; int64_t want = n < 2 ? 2 : O::small_primes()[n-1]; int64_t r = nth_prime(n); if (r != want && n > 0) H::viol("nth_prime(%lld) = %lld", (long long) n, (long long) r); }
      for (int64_t n : {10ll, 11ll, 1000ll, (long long) INT64_MAX}) { bool thrown = false; try { nth_prime(n); } catch (std::exception&) { thrown = true; } H::evals++; if (!thrown) { if (n > 1000 || nth_prime(n) != (int64_t) O::small_primes()[n-1]) H::viol("nth_prime(%lld) is neither right nor refused", (long long) n); } }
    }
    H::sample("phi and phi_sum for every x <= %d and every a", N);
  }
  if (H::on("mid")) { // every a for structural x: naive sieve of [1, x]
    uint64_t max = H::thorough ? 3000000 : 300000, k = 0;
    auto xs = O::structured(max, 1);
    std::set<uint64_t> S(xs.begin(), xs.end());
    std::vector<uint64_t> pr = O::primes_in(2, isq(max) + 50);
    for (uint64_t x : {max, max - 1}) S.insert(x);
    std::vector<char> live(max + 1, 1); live[0] = 0;
    std::vector<uint64_t> cnt(max + 1); std::vector<u128> sm(max + 1);
    for (size_t a = 0; a <= pr.size(); a++) {
      if (a) for (uint64_t m = pr[a-1]; m <= max; m += pr[a-1]) live[m] = 0;
      uint64_t n = 0; u128 s = 0; for (uint64_t x = 0; x <= max; x++) { if (live[x]) { n++; s += x; } cnt[x] = n; sm[x] = s; }
      for (uint64_t x : S) {
        if (a && pr[a-1] * pr[a-1] > 2 * x + 1000) continue; // beyond the square root only count primes: covered by the dense part
        if (!H::mine(k++)) continue;
        if (!H::time_left()) break;
        c_phi(x, a, 1 + k % 3, cnt[x]);
        if (a <= 16 || (x < 20000 && a % 5 == 0)) c_sum(x, a, W::of(sm[x]), true);
      }
    }
  }
  if (H::on("large")) {
    uint64_t k = 0;
    std::vector<uint64_t> xs; for (int b = 20; b < 63; b++) for (int d : {-1, 0, 1}) xs.push_back((1ull << b) + d);
    xs.push_back(INT64_MAX); xs.push_back(INT64_MAX - 1); for (int i = 7; i < 19; i++) xs.push_back((uint64_t) std::pow(10.0, i));
    for (uint64_t p : {30030ull, 510510ull, 9699690ull}) for (uint64_t m : {1000003ull, 4294967311ull}) for (int d : {-1, 0, 1}) xs.push_back(p * m + d);
    for (uint64_t x : xs) for (int a = 1; a <= (H::thorough ? 24 : 14); a++) {
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      if (a <= 6 || x < 20000000000000ull) c_phi(x, a, 1 + k % 8, phi_or(x, a)); // phi needs a table of sqrt(x) for a > 6
      if (a <= 12 || H::thorough) c_sum(x, a, phisum_or(x, a), true);
    }
    std::vector<u128> ws; for (int b = 63; b < 124; b += 3) for (int d : {-1, 0, 1}) ws.push_back(((u128) 1 << b) + d);
    ws.push_back(((u128) 1 << 64) - 1); ws.push_back((u128) 1 << 64); ws.push_back(((u128) 1 << 127) - 1);
    // both sides of the 64-bit boundary after dividing by small primes
    for (uint64_t p : {2, 3, 5, 7, 11, 13}) for (int d : {-1, 0, 1}) { ws.push_back((((u128) 1 << 63) + d) * p); ws.push_back((((u128) 1 << 64) + d) * p); }
    for (u128 x : ws) for (int a = 0; a <= (H::thorough ? 14 : 11); a++) {
      if (!H::mine(k++)) continue;
      c_sum(x, a, phisum_or(x, a), false);
    }
    H::sample("phi_sum at %zu wide x, a <= 11", ws.size());
    // a at and beyond pi(sqrt x) with several threads
    for (uint64_t x : {10000000000ull, 10000000001ull, 31622776601683ull / 1000, 50000000000ull, 99999999977ull}) {
      uint64_t r = isq(x), pr = O::pi_small(r);
      for (int64_t d : {-1, 0, 1}) for (int t : {1, 3, 8}) { // phi = pi(x) - a + 1 there; one below: the extra survivors are p_a^2 and products
        if (!H::mine(k++)) continue;
        if (!H::time_left()) break;
        uint64_t a = pr + d; uint64_t want = O::lucy_count(x) - a + 1;
        if (d < 0) { uint64_t p = O::prev_prime(r + 1); for (uint64_t q = p; q <= x / p; q = O::next_prime(q)) want++; }
        c_phi(x, a, t, want);
      }
    }
  }
  if (H::on("legendre")) {
    uint64_t N = H::thorough ? 2000000 : 200000;
    for (uint64_t x = 0; x < N; x++) {
      if (!H::mine(x / 256)) continue;
      if (x % 256 == 0 && !H::time_left()) break;
      H::begin("pi_legendre(%llu)", (unsigned long long) x); H::evals++; H::distinct++;
      int64_t r = pi_legendre((int64_t) x, 1 + x % 3), w = O::pi_small(x);
      if (r != w) H::viol("pi_legendre(%llu) = %lld, there are %lld primes", (unsigned long long) x, (long long) r, (long long) w);
    }
    for (int64_t x : {-1ll, (long long) INT64_MIN, -100ll}) { H::evals++; if (pi_legendre(x, 2) != 0 || pi_legendre(x) != 0) H::viol("pi_legendre(%lld) is not 0", (long long) x); }
    uint64_t k = 0; auto xs = O::structured((uint64_t) (H::thorough ? 1e12 : 2e10), 1); std::reverse(xs.begin(), xs.end());
    for (size_t i = 0; i < xs.size(); i++) {
      uint64_t x = xs[i]; if (x > 100000000 && i % (H::thorough ? 2 : 8)) continue;
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      uint64_t w = x < (1 << 26) ? O::pi_small(x) : O::lucy_count(x);
      for (int t : {1, 2, 7}) { H::begin("pi_legendre(%llu, %d)", (unsigned long long) x, t); H::evals++; H::distinct++; int64_t r = pi_legendre((int64_t) x, t); if (r != (int64_t) w) H::viol("pi_legendre(%llu) with %d threads = %lld, there are %llu primes", (unsigned long long) x, t, (long long) r, (unsigned long long) w); }
      H::sample("pi_legendre(%llu) = %llu", (unsigned long long) x, (unsigned long long) w);
    }
  }
  return H::done();
}
