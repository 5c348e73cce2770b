// C03: thread counts and thread schedules, on the real parallel code under the
// controlled scheduler (every synchronisation operation is a choice point).
#include "cfgs.h"
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  mc::set_clock_alphabet({1000});
  auto V = cfgs();
  std::vector<std::vector<int>> order;
  // (1) thread counts: every team size, one schedule each under the three base schedulers
  if (H::on("counts")) {
    uint64_t k = 0;
    for (auto& C : V) {
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      H::begin("%s oracle", C.name.c_str());
      mc::set_base(mc::CONTINUE);
      int256_t want = C.want ? int256_t((int128_t) C.want()) : C.f(1);
      int hi = H::thorough ? 15 : 9;
      std::vector<int> ts; for (int t = 1; t <= hi; t++) ts.push_back(t); ts.push_back(64); ts.push_back(1000);
      for (int t : ts) for (int b = 0; b < (C.weight > 4 && !H::thorough ? 1 : 3); b++) {
        mc::set_base((mc::Base) b);
        H::begin("%s threads=%d base scheduler %d", C.name.c_str(), t, b); H::evals++; H::distinct++;
        int256_t r = C.f(t); H::traces++;
        if (r != want) H::viol("%s with %d threads (base scheduler %d) = %s, single-threaded definition gives %s", C.name.c_str(), t, b, str(r).c_str(), str(want).c_str());
      }
    }
  }
  // (2) schedules: all executions with up to d deviations from each base scheduler
  if (H::on("schedules")) {
    uint64_t k = 0;
    struct Job { Cfg* c; int t, base; };
    std::vector<Job> jobs;
    for (auto& C : V) for (int t : C.teams) for (int b = 0; b < 3; b++) {
      if (!H::thorough) {
        if (C.weight == 9) continue;
        if (C.weight >= 3 && (t > 5 || (t == 5 && b))) continue;
        if (C.weight >= 4 && (t > 3 || b == 1)) continue;
        if (C.weight >= 6 && b) continue;
      }
      jobs.push_back({&C, t, b});
    }
    std::map<std::string, int256_t> memo;
    for (auto& J : jobs) {
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      mc::set_base(mc::CONTINUE);
      H::begin("%s oracle", J.c->name.c_str());
      if (!memo.count(J.c->name)) memo[J.c->name] = J.c->want ? int256_t((int128_t) J.c->want()) : J.c->f(1);
      int256_t want = memo[J.c->name];
      mc::set_base((mc::Base) J.base);
      // iterate the deviation bound: 1 always, 2 (3) when the tree of the previous bound says it is small enough
      double est = 0, per = 0;
      for (int dev = 1; dev <= (H::thorough ? 3 : 2); dev++) {
        if (dev > 1) {
          double lim = H::thorough ? 240 : J.c->weight <= 1 ? 1.5 : J.c->weight <= 3 ? 1.5 : 0;
          uint64_t cap = H::thorough ? 2000000 : 8000;
          if (est > cap || est * per > lim) break;
        }
        mc::Bounds B; B.max_dev_sched = dev; B.max_dev_clock = 0; B.max_wall = H::thorough ? 1200 : 60;
        double t0 = H::elapsed();
        auto R = mc::explore(B, [&]() -> std::string {
          H::begin("%s threads=%d base %d", J.c->name.c_str(), J.t, J.base);
          int256_t r = J.c->f(J.t); H::evals++;
          return r == want ? "" : "result " + str(r) + ", single-threaded " + str(want);
        }, [&](const std::string& w, const std::string& ch) { H::viol("%s with %d threads, base scheduler %d, schedule [%s]: %s", J.c->name.c_str(), J.t, J.base, ch.c_str(), w.c_str()); return false; });
        H::states += R.states; H::transitions += R.transitions; H::traces += R.executions; H::distinct += R.executions;
        if (!R.exhaustive) H::exhaustive = false;
        H::note(R.exhaustive ? dev == 1 ? "schedule spaces covered completely to 1 deviation" : dev == 2 ? "schedule spaces covered completely to 2 deviations" : "schedule spaces covered completely to 3 deviations" : "schedule spaces cut off by the time limit", 1);
        H::note("executions with a scheduling choice", R.multi_thread_exec);
        if (dev > 1 || J.c->weight > 4) H::sample("%s, %d threads, base %d, <= %d deviations: %llu schedules, depth %zu%s", J.c->name.c_str(), J.t, J.base, dev, (unsigned long long) R.executions, R.max_depth, R.exhaustive ? "" : " (time limit)");
        if (getenv("VERIF_VERBOSE")) fprintf(stderr, "%s t=%d b=%d d=%d: %llu exec depth %zu ex=%d %.1fs (%.1f)\n", J.c->name.c_str(), J.t, J.base, dev, (unsigned long long) R.executions, R.max_depth, R.exhaustive, H::elapsed(), H::elapsed() - t0);
        per = (H::elapsed() - t0) / R.executions;
        est = dev == 1 ? (double) R.executions * R.executions / 2 : (double) R.executions * R.max_depth / dev;
        if (!R.exhaustive || R.multi_thread_exec == 0) break;
      }
    }
  }
  return H::done();
}
