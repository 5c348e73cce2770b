// C06: the tuning factor.
#include "algos.h"
using namespace primesum;
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  auto grid = [](uint64_t x, bool fine) {
    double r6 = (double) O::iroot(x, 6);
    std::vector<double> g = {-1e300, -3.5, -1, 0, 0.5, 0.999999, 1, 1.000001, 1.25, 1.5, 2, 2.718281828, 3, 5.5, 9.99, 17, r6 - 0.5, r6 - 1e-9, r6, r6 + 1e-9, r6 + 0.5, r6 + 1, 100, 1e9, 1e300};
    if (fine) for (double v = 1; v <= r6 + 0.3; v += std::max(0.05, r6 / 40)) g.push_back(v);
    // y just at, below and above prime squares and primes
    uint64_t r3 = O::iroot(x, 3);
    if (r3 > 1) for (uint64_t p = O::next_prime(r3); p <= r3 * (uint64_t) r6 && g.size() < (fine ? 120u : 60u); p = O::next_prime(p + p / 8)) for (double d : {-0.5, 0.5}) g.push_back((p + d) / r3);
    return g;
  };
  auto run = [&](uint64_t x, u128 w, double a, int t, bool lmo) {
    set_alpha(a);
    H::begin("pi(%llu) alpha=%.17g threads=%d", (unsigned long long) x, a, t); H::evals += 1; if (w) H::distinct++;
    int256_t r = pi((int128_t) x, t);
    if (!same(r, (i128) w)) H::viol("pi(%llu) with tuning factor %.17g and %d threads = %s, the sum of the primes is %s", (unsigned long long) x, a, t, str(r).c_str(), H::s128((i128) w).c_str());
    if (lmo) {
      H::begin("pi_lmo(%llu) alpha=%.17g threads=%d", (unsigned long long) x, a, t); H::evals++;
      int256_t q = pi_lmo_parallel1((int128_t) x, t);
      if (!same(q, (i128) w)) H::viol("pi_lmo(%llu) with tuning factor %.17g and %d threads = %s, the sum of the primes is %s", (unsigned long long) x, a, t, str(q).c_str(), H::s128((i128) w).c_str());
    }
  };
  if (H::on("dense")) {
    uint64_t N = H::thorough ? 30000 : 6000;
    for (uint64_t x = 0; x < N; x++) {
      if (!H::mine(x)) continue;
      if (!H::time_left()) break;
      u128 w = O::prime_sum_small(x);
      if (x < 1) { for (double a : {-1.0, 1.0, 2.0, 1e9}) run(x, w, a, 1, true); continue; }
      for (double a : grid(x, false)) run(x, w, a, 1 + x % 2, true);
      // every distinct y
      uint64_t r3 = O::iroot(x, 3); for (int64_t y = ymin(x); y <= ymax(x); y++) run(x, w, (y + 0.5) / r3, 1, x % 4 == 0);
    }
    H::sample("every x < %llu, a grid of tuning factors and every distinct y", (unsigned long long) N);
  }
  if (H::on("structured")) {
    uint64_t max = (uint64_t) (H::thorough ? 1e12 : 3e10), k = 0;
    std::vector<uint64_t> xs; for (uint64_t x : O::structured((1 << 24) - 1, 1)) xs.push_back(x);
    for (uint64_t x : O::anchor_keys()) if (x >= (1 << 24) && x <= max) xs.push_back(x);
    std::reverse(xs.begin(), xs.end());
    for (size_t i = 0; i < xs.size(); i++) {
      uint64_t x = xs[i];
      if (!H::thorough && x > 100000000 && i % 5) continue;
      if (!H::mine(k++)) continue;
      u128 w = O::prime_sum(x); size_t j = 0;
      for (double a : grid(x, x < 100000000)) {
        if (!H::time_left()) break;
        j++;
        if (!H::thorough && x > 1000000000 && j % 3) continue;
        run(x, w, a, 1 + j % 4, x < (H::thorough ? 100000000000ull : 1000000000ull));
      }
      H::sample("pi(%llu) under %zu tuning factors", (unsigned long long) x, j);
    }
  }
  set_alpha(-1);
  return H::done();
}
