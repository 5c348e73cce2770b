// C05: every memory access of the compiled summing code under a happens-before monitor,
// for every schedule within the deviation bound.
#include "cfgs.h"
#include "S2Status.hpp"
#include <unistd.h>
#include <fcntl.h>
struct RCfg { std::string name; int weight; std::function<int256_t(int)> f; std::vector<int> teams; bool print; };
static std::vector<RCfg> rcfgs() {
  std::vector<RCfg> v;
  auto z = [](uint64_t x, uint64_t y) { return (int64_t) (x / y); };
  auto c = [](uint64_t y) { return (int64_t) L::c_of(y); };
  auto A = [&](const char* n, uint64_t x, uint64_t y, int w, std::function<int256_t(int)> f, std::vector<int> teams, bool p = false) {
    char b[120]; snprintf(b, sizeof b, "%s(x=%llu, y=%llu)%s", n, (unsigned long long) x, (unsigned long long) y, p ? " with status output" : ""); v.push_back({b, w, f, teams, p});
  };
  for (bool p : {false, true}) {
    for (auto [x, y, w] : std::vector<std::tuple<uint64_t, uint64_t, int>>{{8100000000ull, 2100, 1}, {30000000000ull, 4000, 2}, {130000000000ull, 8000, 3}})
      A("S2_easy", x, y, w, [=](int t) { return S2_easy(x, y, z(x, y), c(y), t); }, {2, 3, 4}, p);
    A("S2_easy<int128>", 8100000000ull, 2100, 1, [=](int t) { return S2_easy((int128_t) 8100000000ll, 2100, z(8100000000ull, 2100), c(2100), t); }, {2, 3}, p);
    for (auto [x, y, w] : std::vector<std::tuple<uint64_t, uint64_t, int>>{{100000000ull, 470, 1}, {1000000000ull, 1000, 1}, {1000000000ull, 5000, 1}, {8000000000ull, 2000, 2}, {30000000000ull, 3200, 3}})
      A("S2_hard", x, y, w, [=](int t) { return S2_hard(x, y, z(x, y), c(y), t); }, {2, 3, 7}, p);
    A("P2", 100000000000ull, 4700, 3, [=](int t) { return P2(100000000000ull, 4700, t); }, {2, 3}, p);
    A("P2", 1000000000000ull, 25000, 4, [=](int t) { return P2(1000000000000ull, 25000, t); }, {2, 4}, p);
    A("S1", 4100000000000ull, 2000100, 5, [](int t) { return S1(4100000000000ull, 2000100, 6, t); }, {2}, p);
    A("S1<int128>", 4100000000000ull, 3000100, 6, [](int t) { return S1((int128_t) 4100000000000ll, 3000100, 6, t); }, {3}, p);
    A("pi_deleglise_rivat", 10000000000ull, 0, 3, [=](int t) { return pi_deleglise_rivat((int128_t) 10000000000ll, t); }, {2, 3, 7}, p);
    for (uint64_t x : {100000000ull, 1000000000ull}) A("pi_lmo_parallel1", x, 0, x < 200000000 ? 1 : 3, [=](int t) { return pi_lmo_parallel1(x, t); }, {2, 3, 7}, p);
  }
  A("S2_trivial", 400000000000000ull, 20000001, 7, [=](int t) { return S2_trivial(400000000000000ull, 20000001, z(400000000000000ull, 20000001), 6, t); }, {2});
  A("FactorTable", 0, 20000000, 6, [](int t) { FactorTable<uint16_t> f(20000000, t); return int256_t(f.mu(1)); }, {2});
  for (auto [x, a, w] : std::vector<std::tuple<uint64_t, int, int>>{{20000000001ull, 60, 2}, {40000000007ull, 120, 3}})
    A("phi", x, a, w, [=](int t) { return int256_t(phi(x, a, t)); }, {2, 3, 4});
  A("pi_legendre", 20000000000ull, 0, 4, [=](int t) { return int256_t(pi_legendre(20000000000ull, t)); }, {2, 4});
  return v;
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(7); mc::tsan_on = true;
  mc::set_clock_alphabet({100000});   // every status report is due
  auto V = rcfgs();
  std::string only = H::opt("only", "");
  struct Job { RCfg* c; int t, base; };
  std::vector<Job> jobs;
  for (auto& C : V) for (int t : C.teams) for (int b : {0, 2, 1}) {
    if (!only.empty() && C.name.compare(0, only.size(), only) != 0) continue;
    if (!H::thorough) {
      if (C.weight >= 2 && b == 1) continue;
      if (C.weight >= 3 && (b || t > 3)) continue;
      if (C.weight >= 4 && (t > 3 || C.print)) continue;
    }
    jobs.push_back({&C, t, b});
  }
  uint64_t k = 0; std::map<std::string, int256_t> memo;
  for (auto& J : jobs) {
    if (!H::mine(k++)) continue;
    if (!H::time_left()) break;
    set_print(false); set_print_variables(false); mc::set_base(mc::CONTINUE);
    H::begin("%s single-threaded", J.c->name.c_str());
    double t0 = H::elapsed();
    if (!memo.count(J.c->name)) memo[J.c->name] = J.c->f(1);
    double one = H::elapsed() - t0;
    int256_t want = memo[J.c->name];
    mc::set_base((mc::Base) J.base); set_print(J.c->print);
    uint64_t acc0 = mc::tsan_accesses();
    int maxdev = H::thorough ? 2 : 1; double per = one;
    for (int dev = 0; dev <= maxdev; dev++) {
      if (dev > 0 && per * 150 > (H::thorough ? 400 : 6)) break;
      mc::Bounds B; B.max_dev_sched = dev; B.max_dev_clock = 0; B.max_wall = H::thorough ? 600 : 15;
      double t1 = H::elapsed();
      auto R = mc::explore(B, [&]() -> std::string {
        H::begin("%s threads=%d base %d", J.c->name.c_str(), J.t, J.base);
        int256_t r = J.c->f(J.t); H::evals++;
        return r == want ? "" : "result " + str(r) + ", single-threaded " + str(want);
      }, [&](const std::string& w, const std::string& ch) { H::viol("%s with %d threads, base scheduler %d, schedule [%s]: %s", J.c->name.c_str(), J.t, J.base, ch.c_str(), w.c_str()); return false; });
      H::states += R.states; H::transitions += R.transitions; H::traces += R.executions; H::distinct += R.executions;
      if (!R.exhaustive) H::exhaustive = false;
      H::note(!R.exhaustive ? "schedule spaces cut off by the time limit" : dev == 0 ? "base schedules" : dev == 1 ? "schedule spaces covered completely to 1 deviation" : "schedule spaces covered completely to 2 deviations", 1);
      per = (H::elapsed() - t1) / (double) R.executions * (dev == 0 ? std::max<double>(1, (double) R.max_depth / 150) : (double) R.max_depth / 2);
      if (dev) H::sample("%s, %d threads, base %d, <= %d deviations: %llu schedules, depth %zu", J.c->name.c_str(), J.t, J.base, dev, (unsigned long long) R.executions, R.max_depth);
      if (getenv("VERIF_VERBOSE")) fprintf(stderr, "%s t=%d b=%d d=%d: %llu exec depth %zu ex=%d %.1fs (1 thread %.1fs)\n", J.c->name.c_str(), J.t, J.base, dev, (unsigned long long) R.executions, R.max_depth, R.exhaustive, H::elapsed() - t1, one);
      if (!R.exhaustive || R.multi_thread_exec == 0) break;
    }
    set_print(false);
    H::note("monitored accesses (thousands)", (mc::tsan_accesses() - acc0) / 1000);
  }
  return H::done();
}
