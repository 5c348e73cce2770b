// C16: the easy special leaves and the totals, run identically in both build configurations.
#include "algos.h"
using namespace primesum;
static void easy(u128 x, uint64_t y, int t, u128 want) {
  int64_t z = (int64_t) (x / y), c = L::c_of(y);
  H::begin("S2_easy(%s, %llu) threads %d", H::s128((i128) x).c_str(), (unsigned long long) y, t);
  auto cmp = [&](const char* w, const int256_t& r) { H::evals++; if (want) H::distinct++; if (!same(r, (i128) want)) H::viol("S2_easy (%s build, %s interface)(x=%s, y=%llu, threads=%d) = %s, its definition gives %s", H::opt("config", "?").c_str(), w, H::s128((i128) x).c_str(), (unsigned long long) y, t, str(r).c_str(), H::s128((i128) want).c_str()); };
  if (x <= (u128) INT64_MAX) cmp("64 bit", S2_easy((int64_t) x, y, z, c, t));
  cmp("128 bit", S2_easy((int128_t) x, y, z, c, t));
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8); mc::set_clock_alphabet({1000});
  uint64_t k = 0;
  if (H::on("dense")) {
    uint64_t N = H::thorough ? 20000 : 5000;
    for (uint64_t x = 1; x < N; x++) { if (!H::mine(k++)) continue; for (uint64_t y = ymin(x); y <= (uint64_t) ymax(x); y++) { L::Split s; L::trivial_easy(x, y, s); easy(x, y, 1 + (x + y) % 3, s.easy); } }
    H::sample("every x < %llu with every y in the admissible range", (unsigned long long) N);
    for (uint64_t x = 1; x < (H::thorough ? 200000u : 30000u); x++) { if (!H::mine(k++)) continue; H::begin("pi(%llu)", (unsigned long long) x); H::evals++; H::distinct++; int256_t r = pi((int128_t) x, 1 + x % 4); if (!same(r, (i128) O::prime_sum(x))) H::viol("pi(%llu) (%s build) = %s, the sum of the primes is %s", (unsigned long long) x, H::opt("config", "?").c_str(), str(r).c_str(), H::s128((i128) O::prime_sum(x)).c_str()); }
  }
  if (H::on("structured")) {
    std::vector<uint64_t> xs = O::structured(H::thorough ? 3000000000000ull : 40000000000ull, 1); std::reverse(xs.begin(), xs.end());
    for (uint64_t x : xs) {
      if (x < 5000) continue;
      if (!H::thorough && x > 1000000000 && k % 3) { k++; continue; }
      uint64_t a = ymin(x), b = ymax(x);
      std::set<uint64_t> ys = {a, a + 1, (uint64_t) std::sqrt((double) a * (double) b), (uint64_t) ((double) a * std::pow((double) b / (double) a, 0.25))}; if (x < 10000000000ull) { ys.insert(b); ys.insert(b - 1); }
      for (uint64_t y : ys) { if (!H::mine(k++)) continue; if (!H::time_left()) break; H::begin("oracle %llu %llu", (unsigned long long) x, (unsigned long long) y); L::Split s; L::trivial_easy(x, y, s); easy(x, y, 1 + k % 8, s.easy); }
    }
    H::sample("%zu structural x below %llu with 4 to 6 y each", xs.size(), (unsigned long long) (H::thorough ? 3000000000000ull : 40000000000ull));
    std::vector<uint64_t> an; for (uint64_t x : O::anchor_keys()) if (x >= 1000000 && x <= (H::thorough ? 2000000000000ull : 20000000000ull)) an.push_back(x);
    for (uint64_t x : an) { if (!H::thorough && k % 2) { k++; continue; } if (!H::mine(k++)) continue; if (!H::time_left()) break; H::begin("pi(%llu)", (unsigned long long) x); H::evals++; H::distinct++; int256_t r = pi((int128_t) x, 1 + k % 8); if (!same(r, (i128) O::prime_sum(x))) H::viol("pi(%llu) (%s build) = %s, the sum of the primes is %s", (unsigned long long) x, H::opt("config", "?").c_str(), str(r).c_str(), H::s128((i128) O::prime_sum(x)).c_str()); }
  }
  if (H::on("wide")) { // divisions of more than 64 bits
    std::vector<u128> xs; for (int b : {62, 63, 64, 65, 66, 68}) for (int d : {-1, 0, 1}) xs.push_back(((u128) 1 << b) + d);
    xs.push_back((u128) 10000000000ull * 10000000000ull);
    for (u128 x : xs) for (double al : {1.0, 1.02, 1.2}) {
      if (!H::mine(k++)) continue; if (!H::thorough && (al > 1.1 || (x >> 66) || (k / 8) % 3)) continue; if (!H::time_left()) break;
      uint64_t y = (uint64_t) ((double) O::iroot(x, 3) * al); H::begin("wide oracle %s", H::s128((i128) x).c_str()); L::Split s; L::trivial_easy(x, y, s); easy(x, y, 1 + k % 8, s.easy);
      H::sample("x=%s y=%llu", H::s128((i128) x).c_str(), (unsigned long long) y);
    }
  }
  if (H::on("schedules")) {
    struct J { uint64_t x, y; int t; }; std::vector<J> js = {{8100000000ull, 2100, 2}, {8100000000ull, 2100, 3}, {30000000000ull, 4000, 3}, {70000000000ull, 9000, 4}};
    for (auto& j : js) for (int b = 0; b < 3; b++) {
      if (!H::mine(k++)) continue;
      L::Split s; L::trivial_easy(j.x, j.y, s); mc::set_base((mc::Base) b);
      mc::Bounds B; B.max_dev_sched = H::thorough ? 2 : 1; B.max_wall = H::thorough ? 600 : 20;
      auto R = mc::explore(B, [&]() -> std::string { H::begin("S2_easy(%llu, %llu) threads %d base %d", (unsigned long long) j.x, (unsigned long long) j.y, j.t, b); H::evals++; int256_t r = b == 2 ? S2_easy((int128_t) j.x, j.y, (int64_t) (j.x / j.y), 6, j.t) : S2_easy((int64_t) j.x, j.y, (int64_t) (j.x / j.y), 6, j.t); return same(r, (i128) s.easy) ? "" : "result " + str(r) + ", definition " + H::s128((i128) s.easy); },
        [&](const std::string& w, const std::string& ch) { H::viol("S2_easy (%s build)(%llu, %llu) with %d threads, base scheduler %d, schedule [%s]: %s", H::opt("config", "?").c_str(), (unsigned long long) j.x, (unsigned long long) j.y, j.t, b, ch.c_str(), w.c_str()); return false; });
      H::states += R.states; H::transitions += R.transitions; H::traces += R.executions; H::distinct += R.executions; if (!R.exhaustive) H::exhaustive = false;
      H::note("schedules", R.executions);
    }
  }
  return H::done();
}
