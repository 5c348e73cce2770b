// C15: progress output under schedules and clocks: bounded, monotone, the asked precision, no influence on values.
#include "cfgs.h"
#include "S2Status.hpp"
#include <omp.h>
#include <iostream>
#include <cstring>
#include <cmath>
// the phases of an output: percentages in order of appearance, "" when all is well
static uint64_t shown = 0;
static std::string judge(const std::string& out, int prec) {
  double last = -1; size_t i = 0;
  // a new phase starts at a header line
  while (i < out.size()) {
    if (out.compare(i, 3, "===") == 0) { last = -1; size_t e = out.find("===", i + 3); i = e == std::string::npos ? i + 3 : e + 3; continue; }
    if (out.compare(i, 8, "Status: ") == 0) {
      size_t j = i + 8, e = j; while (e < out.size() && out[e] != '%') { if (out[e] == '\n' || e - j > 12) break; e++; }
      std::string t = out.substr(j, e - j);
      if (e >= out.size() || out[e] != '%') return "status line without a percentage: \"" + t + "\"";
      bool fin = t == "100"; size_t dot = t.find('.'); std::string ip = t.substr(0, dot);
      if (ip.empty() || ip.find_first_not_of("0123456789") != std::string::npos) return "not a percentage: \"" + t + "\"";
      size_t dec = dot == std::string::npos ? 0 : t.size() - dot - 1;
      if (dec != (size_t) prec && !fin) return "\"" + t + "%\" does not have the " + std::to_string(prec) + " decimals asked for";
      double v = atof(t.c_str());
      if (!(v >= 0 && v <= 100)) return "percentage \"" + t + "\" is outside 0..100";
      if (v < last) return "percentage falls from " + std::to_string(last) + " to " + t;
      last = v; shown++; i = e;
    }
    i++;
  }
  return "";
}
static std::vector<Cfg> pcfgs() {
  std::vector<Cfg> v; char b[120];
  auto leaves = [](uint64_t x, uint64_t y) { L::Split s; L::trivial_easy(x, y, s); return s; };
  auto z = [](uint64_t x, uint64_t y) { return (int64_t) (x / y); };
  auto c = [](uint64_t y) { return (int64_t) L::c_of(y); };
  for (auto [x, y, w] : std::vector<std::tuple<uint64_t, uint64_t, int>>{{1000000000ull, 1000, 1}, {8100000000ull, 2100, 1}, {30000000000ull, 4000, 2}, {64000000000ull, 4000, 2}}) {
    uint64_t X = x, Y = y; snprintf(b, sizeof b, "S2_easy(x=%llu, y=%llu)", (unsigned long long) x, (unsigned long long) y);
    v.push_back({b, w, [=](int t) { return S2_easy(X, Y, z(X, Y), c(Y), t); }, [=] { return leaves(X, Y).easy; }, {1, 2, 3, 4}});
    snprintf(b, sizeof b, "S2_easy<int128>(x=%llu, y=%llu)", (unsigned long long) x, (unsigned long long) y);
    v.push_back({b, w + 1, [=](int t) { return S2_easy((int128_t) X, Y, z(X, Y), c(Y), t); }, [=] { return leaves(X, Y).easy; }, {2, 3}});
    snprintf(b, sizeof b, "S2_trivial(x=%llu, y=%llu)", (unsigned long long) x, (unsigned long long) y);
    v.push_back({b, 2, [=](int t) { return S2_trivial(X, Y, z(X, Y), c(Y), t); }, [=] { return leaves(X, Y).trivial; }, {1, 4}});
  }
  for (auto [x, y, w] : std::vector<std::tuple<uint64_t, uint64_t, int>>{{1000000ull, 100, 1}, {100000000000ull, 4700, 2}, {1000000000000ull, 20000, 3}, {4000000000000ull, 20000, 4}}) {
    uint64_t X = x, Y = y; snprintf(b, sizeof b, "P2(x=%llu, y=%llu)", (unsigned long long) x, (unsigned long long) y);
    v.push_back({b, w, [=](int t) { return P2((int128_t) X, Y, t); }, [=] { return L::P2(X, Y); }, {1, 2, 3}});
  }
  for (uint64_t x : {1000ull, 100000ull, 10000000ull, 1000000000ull, 10000000000ull, 100000000000ull}) {
    snprintf(b, sizeof b, "pi_deleglise_rivat(x=%llu)", (unsigned long long) x);
    v.push_back({b, x > 2000000000ull ? 3 : 1, [=](int t) { return pi_deleglise_rivat((int128_t) x, t); }, [=] { return O::prime_sum(x); }, {1, 2, 4}});
    if (x < 20000000000ull) { snprintf(b, sizeof b, "pi_lmo_parallel1(x=%llu)", (unsigned long long) x); v.push_back({b, x > 2000000000ull ? 3 : 1, [=](int t) { return pi_lmo_parallel1((int128_t) x, t); }, [=] { return O::prime_sum(x); }, {1, 2, 4}}); }
  }
  return v;
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  uint64_t k = 0;
  // (1) the percentage function itself
  if (H::on("percent")) {
    uint64_t top = H::thorough ? 12000 : 3000;
    for (uint64_t lim = 0; lim <= top; lim++) {
      if (!H::mine(k++)) continue;
      H::begin("percentages of limit %llu", (unsigned long long) lim);
      double l1 = -1, l2 = -1;
      for (uint64_t n = 0; n <= lim + 3; n++) {
        double p = S2Status::skewed_percent((int128_t) n, (int128_t) lim), q = get_percent((int64_t) n, (int64_t) lim); H::evals += 2; H::distinct += 2;
        if (!(p >= -1e-9 && p <= 100 + 1e-9) || !(q >= 0 && q <= 100)) { H::viol("progress %llu of %llu is shown as %.17g%% / %.17g%%", (unsigned long long) n, (unsigned long long) lim, p, q); break; }
        if (p < l1 - 1e-9 || q < l2) { H::viol("progress shown falls at %llu of %llu: %.17g after %.17g, %.17g after %.17g", (unsigned long long) n, (unsigned long long) lim, p, l1, q, l2); break; }
        l1 = p; l2 = q;
      }
      if (lim && (l1 < 99.5 || l2 < 99.5)) H::viol("complete progress of %llu is shown as %.17g%% / %.17g%%", (unsigned long long) lim, l1, l2);
    }
    for (int e = 12; e < 62; e++) { if (!H::mine(k++)) continue; H::begin("percentages of limit 2^%d", e); double l1 = -1, l2 = -1; i128 lim = (i128) 1 << e; for (int i = 0; i <= 2000; i++) { i128 n = lim / 2000 * i; double p = S2Status::skewed_percent(n, lim), q = get_percent((int64_t) n, (int64_t) lim); H::evals += 2; H::distinct += 2; if (p < l1 - 1e-9 || q < l2 || p > 100.000001 || q > 100 || p < -1e-9) H::viol("progress %s of 2^%d: %.17g%% / %.17g%%", H::s128(n).c_str(), e, p, q); l1 = p; l2 = q; } }
    H::sample("percentages for every progress value of every limit up to %llu", (unsigned long long) top);
  }
  // (2) computations with status on: values and shown percentages under schedules, clocks and precisions
  if (H::on("runs")) {
    auto V = pcfgs(); std::map<std::string, int256_t> memo;
    struct Job { Cfg* c; int t, base, prec; };
    std::vector<Job> jobs;
    for (auto& C : V) for (int t : C.teams) for (int b = 0; b < 3; b++) for (int prec = 0; prec <= 5; prec++) {
      if (t == 1 && b) continue;
      if (!H::thorough && ((C.weight >= 2 && prec % 2) || (C.weight >= 3 && (prec || b == 1)) || (C.weight >= 4 && t > 2))) continue;
      jobs.push_back({&C, t, b, prec});
    }
    for (auto& J : jobs) {
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      set_print(false); mc::set_base(mc::CONTINUE); mc::set_clock_alphabet({1000});
      H::begin("%s oracle", J.c->name.c_str());
      if (!memo.count(J.c->name)) memo[J.c->name] = int256_t((int128_t) J.c->want());
      int256_t want = memo[J.c->name];
      set_print(true); set_status_precision(J.prec); mc::set_base((mc::Base) J.base);
      for (int al = 0; al < 3; al++) {
        std::vector<int64_t> A = al == 0 ? std::vector<int64_t>{100000, 1, 30000000} : al == 1 ? std::vector<int64_t>{49999, 50001} : std::vector<int64_t>{1, 60000};
        mc::set_clock_alphabet(A);
        double per = 0;
        for (int dev = 0; dev <= (H::thorough ? 2 : 1); dev++) {
          if (dev && per > (H::thorough ? 300 : 1.5)) break;
          mc::Bounds B; B.max_dev_sched = dev; B.max_dev_clock = dev; B.max_wall = H::thorough ? 400 : 20;
          double t0 = H::elapsed();
          auto R = mc::explore(B, [&]() -> std::string {
            H::begin("%s threads=%d base %d precision %d clock %d", J.c->name.c_str(), J.t, J.base, J.prec, al);
            int256_t r; std::string out = H::capture([&] { r = J.c->f(J.t); std::cout.flush(); }); H::evals++;
            if (r != want) return "result " + str(r) + ", expected " + str(want);
            return judge(out, J.prec);
          }, [&](const std::string& w, const std::string& ch) { set_print(false); H::viol("%s with %d threads, status precision %d, base scheduler %d, clock alphabet %d, choices [%s]: %s", J.c->name.c_str(), J.t, J.prec, J.base, al, ch.c_str(), w.c_str()); return false; });
          H::states += R.states; H::transitions += R.transitions; H::traces += R.executions; H::distinct += R.executions;
          if (!R.exhaustive) H::exhaustive = false;
          H::note(!R.exhaustive ? "spaces cut off by the time limit" : dev == 0 ? "base executions" : dev == 1 ? "spaces covered completely to 1 deviation of schedule and of clock" : "spaces covered completely to 2 deviations of schedule and of clock", 1);
          per = (H::elapsed() - t0) / (double) R.executions * std::pow((double) R.max_depth + 2, 2.0 * (dev + 1)) / 3;
          if (dev) H::sample("%s, %d threads, precision %d: %llu executions, depth %zu", J.c->name.c_str(), J.t, J.prec, (unsigned long long) R.executions, R.max_depth);
          if (getenv("VERIF_VERBOSE")) fprintf(stderr, "%s t=%d b=%d p=%d a=%d d=%d: %llu exec depth %zu ex=%d %.1fs\n", J.c->name.c_str(), J.t, J.base, J.prec, al, dev, (unsigned long long) R.executions, R.max_depth, R.exhaustive, H::elapsed() - t0);
          if (!R.exhaustive) break;
        }
      }
      set_print(false); set_status_precision(-1); mc::set_clock_alphabet({1000});
    }
    H::note("percentages shown", shown);
  }
  // (3) the status object alone, every access to it a scheduling point (instrumented build)
  if (H::on("object")) {
    mc::tsan_on = true;
    for (int prec : {0, 1, 3}) for (int t : {2, 3}) for (int n : {3, 6, 12}) for (int b = 0; b < 3; b++) {
      if (!H::mine(k++)) continue;
      if (!H::thorough && n == 12 && t == 3) continue;
      mc::set_base((mc::Base) b); mc::set_clock_alphabet({60000, 1000});
      double est = 0;
      for (int dev = 1; dev <= (H::thorough ? 4 : 3); dev++) {
        if (dev > 1 && est > (H::thorough ? 2e6 : 60000)) break;
        mc::Bounds B; B.max_dev_sched = dev; B.max_dev_clock = 1; B.max_wall = H::thorough ? 400 : 20;
        auto R = mc::explore(B, [&]() -> std::string {
          H::begin("S2Status object, %d threads, %d reports, precision %d, base %d", t, n, prec, b);
          set_status_precision(prec);
          std::string out = H::capture([&] {
            S2Status st((int128_t) 1000000); mc::tsan_watch(&st, sizeof st);
            #pragma omp parallel for num_threads(t) schedule(dynamic, 1)
            for (int i = 0; i <= n; i++) st.print(i, n);
            mc::tsan_watch(nullptr, 0); std::cout.flush();
          });
          set_status_precision(-1); H::evals++;
          mc::take_reports(); // races are the business of C05; here only what is shown counts
          return judge(out, prec);
        }, [&](const std::string& w, const std::string& ch) { H::viol("S2Status with %d threads making %d reports, precision %d, base scheduler %d, choices [%s]: %s", t, n + 1, prec, b, ch.c_str(), w.c_str()); return false; });
        H::states += R.states; H::transitions += R.transitions; H::traces += R.executions; H::distinct += R.executions;
        if (!R.exhaustive) H::exhaustive = false;
        est = (double) R.executions * (double) R.max_depth / (dev + 1);
        H::sample("S2Status, %d threads, %d reports, precision %d, base %d, <= %d preemptions at member accesses: %llu executions, depth %zu", t, n + 1, prec, b, dev, (unsigned long long) R.executions, R.max_depth);
        if (getenv("VERIF_VERBOSE")) fprintf(stderr, "object t=%d n=%d p=%d b=%d d=%d: %llu exec depth %zu ex=%d\n", t, n, prec, b, dev, (unsigned long long) R.executions, R.max_depth, R.exhaustive);
        if (!R.exhaustive) break;
      }
    }
    H::note("percentages shown", shown);
  }
  return H::done();
}
