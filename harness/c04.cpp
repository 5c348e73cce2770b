// C04: measured time.  Every clock reading is a choice of the explorer.
#include "cfgs.h"
#include "S2LoadBalancer.hpp"
static std::vector<int64_t> AL = {1, 4000, 200000, 20000000, 100000000}; // microseconds between two readings
struct Mem { std::map<std::string, int256_t> m; int256_t get(Cfg& c) { auto it = m.find(c.name); if (it != m.end()) return it->second; mc::set_base(mc::CONTINUE); mc::set_clock_alphabet({1000}); H::begin("%s oracle", c.name.c_str()); return m[c.name] = c.want ? int256_t((int128_t) c.want()) : c.f(1); } } memo;
static std::vector<Cfg> mine_cfgs() {
  std::vector<Cfg> v;
  auto leaves = [](uint64_t x, uint64_t y) { L::Split s; L::trivial_easy(x, y, s); return s; };
  auto hard = [leaves](uint64_t x, uint64_t y) { L::Split s = leaves(x, y); auto p = O::primes_in(2, y); return O::prime_sum(x) - L::S1(x, y, L::c_of(y), p).s - s.trivial - s.easy - O::prime_sum_small(y) + 1 + L::P2(x, y); };
  auto z = [](uint64_t x, uint64_t y) { return (int64_t) (x / y); };
  auto c = [](uint64_t y) { return (int64_t) L::c_of(y); };
  char b[100];
  for (auto [x, y, w] : std::vector<std::tuple<uint64_t, uint64_t, int>>{{20000000ull, 280, 1}, {100000000ull, 470, 1}, {300000000ull, 700, 1}, {1000000000ull, 1000, 2}, {1000000000ull, 5000, 1}, {8000000000ull, 2000, 3}, {30000000000ull, 3200, 4}, {123456789012ull, 12000, 4}}) {
    snprintf(b, sizeof b, "S2_hard(x=%llu, y=%llu)", (unsigned long long) x, (unsigned long long) y);
    uint64_t X = x, Y = y;
    v.push_back({b, w, [=](int t) { return S2_hard(X, Y, z(X, Y), c(Y), t); }, [=] { return hard(X, Y); }, {1, 2, 3, 5, 8}});
  }
  for (uint64_t x : {100000000ull, 1000000000ull, 10000000000ull}) {
    snprintf(b, sizeof b, "pi_lmo_parallel1(x=%llu)", (unsigned long long) x);
    v.push_back({b, x < 2000000000 ? 2 : 4, [=](int t) { return pi_lmo_parallel1(x, t); }, [=] { return O::prime_sum(x); }, {1, 2, 3, 8}});
  }
  for (uint64_t x : {1000000000ull, 10000000000ull}) {
    snprintf(b, sizeof b, "pi_deleglise_rivat(x=%llu)", (unsigned long long) x);
    v.push_back({b, x < 2000000000 ? 2 : 4, [=](int t) { return pi_deleglise_rivat(x, t); }, [=] { return O::prime_sum(x); }, {1, 2, 3, 8}});
  }
  return v;
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  auto V = mine_cfgs();
  uint64_t k = 0;
  auto rec = [&](const mc::Result& R, const char* what) {
    H::states += R.states; H::transitions += R.transitions; H::traces += R.executions; H::distinct += R.executions;
    if (!R.exhaustive) H::exhaustive = false;
    H::note(R.exhaustive ? what : "clock spaces cut off by the time limit", 1);
  };
  auto one = [&](Cfg& C, int t, const int256_t& want, const std::string& how) -> std::string {
    (void) how; int256_t r = C.f(t); H::evals++;
    return r == want ? "" : "result " + str(r) + ", expected " + str(want);
  };
  // (1) every periodic sequence of increments of period 1, 2, 3 (each thread may be slow or fast, in every pattern)
  if (H::on("periodic")) {
    for (auto& C : V) {
      if (C.weight >= 4 && !H::thorough) continue;
      for (int t : C.teams) for (int b = 0; b < 3; b++) {
        if (b == 1 && (C.weight >= 3 || t == 1)) continue;
        if (t == 1 && b) continue;
        int P = H::thorough ? (C.weight <= 2 ? 4 : 3) : C.weight == 1 ? 3 : 2;
        std::vector<std::vector<int>> pats; 
        for (int p = 1; p <= P; p++) { int n = 1; for (int i = 0; i < p; i++) n *= (int) AL.size(); for (int i = 0; i < n; i++) { std::vector<int> q; int j = i; for (int l = 0; l < p; l++) { q.push_back(j % (int) AL.size()); j /= (int) AL.size(); } pats.push_back(q); } }
        // a stall that comes later: long prefix of one value, then another
        for (int a = 0; a < (int) AL.size(); a++) for (int c = 0; c < (int) AL.size(); c++) for (int n : {3, 7, 16, 33}) if (a != c) { std::vector<int> q((size_t) n, a); for (int l = 0; l < n; l++) q.push_back(c); pats.push_back(q); }
        bool any = false; for (size_t i = 0; i < pats.size(); i++) any |= H::mine(k + i);
        if (!any) { k += pats.size(); continue; }
        int256_t want = memo.get(C); mc::set_base((mc::Base) b);
        for (auto& q : pats) {
          if (!H::mine(k++)) continue;
          if (!H::time_left()) break;
          size_t i = 0;
          mc::set_clock_script([&] { return AL[(size_t) q[i++ % q.size()]]; });
          std::string ps; for (int e : q) ps += " " + std::to_string(AL[(size_t) e]);
          H::begin("%s threads=%d base %d, clock increments (us, repeated):%s", C.name.c_str(), t, b, ps.c_str());
          std::string r = mc::run_with("", [&] { i = 0; return one(C, t, want, ""); });
          H::traces++; H::distinct++; H::states += mc::clock_calls(); H::transitions += mc::clock_calls();
          if (!r.empty()) H::viol("%s with %d threads, base scheduler %d, clock increments (us, repeated)%s: %s", C.name.c_str(), t, b, ps.c_str(), r.c_str());
        }
      }
    }
    mc::set_clock_alphabet({1000});
  }
  // (2) deviations: from each constant clock, every sequence with up to d other readings (and schedules of the same bound)
  if (H::on("deviate")) {
    struct Job { Cfg* c; int t, base; size_t al; };
    std::vector<Job> jobs;
    for (auto& C : V) for (int t : C.teams) for (int b : {0, 2}) for (size_t a = 0; a < AL.size(); a++) {
      if (!H::thorough && (C.weight > 2 || (C.weight == 2 && (t == 1 || t == 5 || b)) || (b && t != 3))) continue;
      if (H::thorough && C.weight > 3 && (b || t == 5)) continue;
      if (t == 1 && b) continue;
      jobs.push_back({&C, t, b, a});
    }
    for (auto& J : jobs) {
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      int256_t want = memo.get(*J.c);
      std::vector<int64_t> al{AL[J.al]}; for (size_t i = 0; i < AL.size(); i++) if (i != J.al) al.push_back(AL[i]);
      mc::set_base((mc::Base) J.base); mc::set_clock_alphabet(al);
      { // long histories (many small rounds) are left to the periodic family in the quick tier
        mc::run_with("", [&] { return one(*J.c, J.t, want, ""); });
        if (!H::thorough && mc::clock_calls() > (J.c->weight == 1 ? 700u : 300u)) { H::note("clock spaces left to the thorough tier", 1); continue; }
      }
      double per = 0, est = 0;
      for (int dev = 1; dev <= (H::thorough ? 3 : 2); dev++) {
        if (dev > 1 && (est > 200000 || est * per > (H::thorough ? 120 : 2))) break;
        mc::Bounds B; B.max_dev_clock = dev; B.max_dev_sched = H::thorough && J.c->weight == 1 && dev == 1 ? 1 : 0; B.max_wall = H::thorough ? 900 : 40;
        double t0 = H::elapsed();
        auto R = mc::explore(B, [&] { H::begin("%s threads=%d base %d, clock base %lld us", J.c->name.c_str(), J.t, J.base, (long long) al[0]); return one(*J.c, J.t, want, ""); },
          [&](const std::string& w, const std::string& ch) { H::viol("%s with %d threads, base scheduler %d, clock base %lld us, choices [%s]: %s", J.c->name.c_str(), J.t, J.base, (long long) al[0], ch.c_str(), w.c_str()); return false; });
        rec(R, dev == 1 ? "clock spaces covered completely to 1 deviation" : dev == 2 ? "clock spaces covered completely to 2 deviations" : "clock spaces covered completely to 3 deviations");
        per = (H::elapsed() - t0) / (double) R.executions; est = dev == 1 ? (double) R.executions * (double) R.executions / 2 : (double) R.executions * (double) R.max_depth * 4 / dev;
        if (dev > 1 || J.al == 0) H::sample("%s, %d threads, clock base %lld us, <= %d deviations: %llu executions, depth %zu", J.c->name.c_str(), J.t, (long long) al[0], dev, (unsigned long long) R.executions, R.max_depth);
        if (getenv("VERIF_VERBOSE")) fprintf(stderr, "%s t=%d b=%d a=%zu d=%d: %llu exec depth %zu %.1fs\n", J.c->name.c_str(), J.t, J.base, J.al, dev, (unsigned long long) R.executions, R.max_depth, H::elapsed() - t0);
        if (!R.exhaustive) break;
      }
    }
    mc::set_clock_alphabet({1000});
  }
  // (3) P2: every sequence of round durations (below, exactly, above the limit), complete
  if (H::on("p2")) {
    struct PJ { uint64_t x, y; int t; int base = 0; };
    std::vector<PJ> js = {{1000000000000ull, 20000, 1}, {1000000000000ull, 10000, 1}, {1000000000000ull, 10000, 2}, {1000000000000ull, 20000, 3}, {3000000000000ull, 40000, 2}, {4000000000000ull, 20000, 2}};
    if (H::thorough) { js.push_back({4000000000000ull, 16000, 1}); js.push_back({4000000000000ull, 16000, 2}); js.push_back({4000000000000ull, 16000, 3}); js.push_back({8000000000000ull, 20100, 4}); }
    // machines that stay slow (or exactly at the limit) for the whole computation, with single rounds that differ
    for (auto [x, y, t] : std::vector<std::tuple<uint64_t, uint64_t, int>>{{300000000000ull, 10000, 1}, {300000000000ull, 8000, 1}, {500000000000ull, 10000, 2}, {1000000000000ull, 10000, 1}, {1200000000000ull, 12000, 3}}) for (int b : {1, 2}) js.push_back({x, y, t, b});
    for (auto& J : js) {
      // split the tree over the shards by the first rounds' durations
      std::vector<int64_t> al = {1000, 61000000, 60000000};
      std::rotate(al.begin(), al.begin() + J.base, al.end());
      for (int first = 0; first < 9; first++) {
        if (!H::mine(k++)) continue;
        if (!H::time_left()) break;
        H::begin("P2 oracle x=%llu", (unsigned long long) J.x);
        static std::map<std::pair<uint64_t, uint64_t>, u128> pm; auto key = std::make_pair(J.x, J.y); if (!pm.count(key)) pm[key] = L::P2(J.x, J.y);
        int256_t want((int128_t) pm[key]);
        mc::set_base(J.t == 3 ? mc::REVERSE : mc::CONTINUE);
        // readings alternate: start of round, end of round; only the difference matters
        std::vector<uint64_t> seen;
        mc::Bounds B; B.max_dev_sched = 0; B.max_wall = H::thorough ? 1200 : 100; B.max_dev_clock = H::thorough ? 4 : J.base ? 1 : 2;
        uint64_t n = 0;
        auto R = mc::explore(B, [&]() -> std::string {
          n = 0; mc::set_clock_script([&]() -> int64_t { uint64_t i = n++; if (i < 2 || i % 2 == 1) return 1000; /* the readings in P2(): first call, then pairs */ size_t r = i / 2 - 1; if (r == 0) return al[(size_t) first / 3]; if (r == 1) return al[(size_t) first % 3]; return al[(size_t) mc::choose(3, mc::K_CLOCK)]; });
          H::begin("P2(%llu, %llu) threads=%d round durations %d", (unsigned long long) J.x, (unsigned long long) J.y, J.t, first);
          H::evals++; int256_t r = P2(J.x, J.y, J.t); return r == want ? "" : "result " + str(r) + ", expected " + str(want);
        }, [&](const std::string& w, const std::string& ch) { H::viol("P2(%llu, %llu) with %d threads, base duration %lld us, first durations %d, then [%s]: %s", (unsigned long long) J.x, (unsigned long long) J.y, J.t, (long long) al[0], first, ch.c_str(), w.c_str()); return false; });
        rec(R, "P2 duration trees covered to the bound");
        if (first == 0) H::sample("P2(%llu, %llu) with %d threads: %llu duration sequences per first pair, %llu readings", (unsigned long long) J.x, (unsigned long long) J.y, J.t, (unsigned long long) R.executions, (unsigned long long) n);
      }
      mc::set_clock_alphabet({1000});
    }
  }
  // (4) the balancer alone at sizes that cannot be computed: every sequence of timing patterns, invariants the sieve relies on
  if (H::on("balancer")) {
    std::vector<std::pair<u128, uint64_t>> xs; // x and y
    for (int e : {60, 70, 80, 90, 95, 100}) { u128 x = (u128) 1 << e; uint64_t r3 = O::iroot(x, 3); xs.push_back({x, r3}); xs.push_back({x, r3 * 20}); }
    xs.push_back({1000000000000ull, 10000}); xs.push_back({1000000ull, 100}); xs.push_back({1000000000000ull, 100000});
    int depth = H::thorough ? 8 : 6;
    for (auto& e : xs) for (int t : {1, 2, 8, 64}) {
      if (!H::mine(k++)) continue;
      u128 zz = e.first / e.second; if (zz >= (u128) 1 << 61) continue;
      int64_t z = (int64_t) zz;
      H::begin("balancer x=%s y=%llu threads=%d", H::s128((i128) e.first).c_str(), (unsigned long long) e.second, t);
      mc::Bounds B; B.horizon = (size_t) depth; B.max_wall = H::thorough ? 600 : 30;
      bool dead = false;
      auto R = mc::explore(B, [&]() -> std::string {
        S2LoadBalancer lb((int128_t) e.first, (int64_t) e.second, z, t);
        int64_t low = 1, ss = lb.get_min_segment_size(), spt = 1, th = t;
        aligned_vector<double> tm((size_t) t);
        for (int r = 0; r < depth + 60 && low < z; r++) {
          int64_t segs = (z - low + ss - 1) / ss; th = std::min<int64_t>(th, segs); if (th < 1) th = 1; spt = std::min<int64_t>(spt, (segs + th - 1) / th); if (spt < 1) spt = 1;
          int p = mc::choose(6, mc::K_CLOCK);
          for (int i = 0; i < t; i++) tm[(size_t) i] = p == 0 ? 1e-6 : p == 1 ? 0.05 : p == 2 ? 5 : p == 3 ? (i == 0 ? 100 : 1e-6) : p == 4 ? (i % 2 ? 2.0 : 0.001) : 1000;
          i128 nl = (i128) low + (i128) ss * spt * th; if (nl > ((i128) 1 << 62)) return "distance overflows: low " + std::to_string(low) + " segment " + std::to_string(ss) + " segments " + std::to_string(spt);
          low = (int64_t) nl;
          lb.update(low, th, &ss, &spt, tm); H::evals++;
          if (ss < 1 || spt < 1) return "segment size " + std::to_string(ss) + ", segments per thread " + std::to_string(spt);
          if (ss % 2) return "odd segment size " + std::to_string(ss);
          if ((i128) ss > (i128) 64 * (i128) O::isqrt((u128) z) + 4096) return "segment size " + std::to_string(ss) + " grows beyond the square root of z";
        }
        return "";
      }, [&](const std::string& w, const std::string& ch) { H::viol("S2LoadBalancer x=%s y=%llu threads=%d, timing patterns [%s]: %s", H::s128((i128) e.first).c_str(), (unsigned long long) e.second, t, ch.c_str(), w.c_str()); dead = true; return false; });
      (void) dead; rec(R, "balancer histories covered completely");
    }
    H::sample("S2LoadBalancer: every sequence of %d timing patterns out of 6, x up to 2^100, 1 to 64 threads", depth);
  }
  return H::done();
}
