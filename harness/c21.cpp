// C21: parallel sieving equals serial sieving under every schedule, without races, and terminates.
// Built three times: std (as shipped), small (MIN_THREAD_DISTANCE at its documented minimum, so that
// short intervals are split into many chunks) and tsansmall (the same, with every atomic access a
// scheduling point and every memory access under the happens-before monitor).
#include "sieveo.h"
#include "mcrt.h"
#include <primesieve.h>
#include <primesieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <map>
#include <memory>
typedef uint64_t u64;
typedef unsigned long long ull;
using namespace primesieve;
static const u64 M = ~0ull;
static const int ALL = COUNT_PRIMES | COUNT_TWINS | COUNT_TRIPLETS | COUNT_QUADRUPLETS | COUNT_QUINTUPLETS | COUNT_SEXTUPLETS;
static std::string run(u64 a, u64 b, int threads, int kb, int flags, counts_t& c, int* used = nullptr) {
  ParallelSieve ps; ps.setSieveSize(kb); ps.setNumThreads(threads); ps.setStart(a); ps.setStop(b); ps.setFlags(flags);
  if (used) *used = ps.idealNumThreads();
  ps.sieve(); c = ps.getCounts(); return "";
}
static std::string compare(const SO::Tab& t, u64 a, u64 b, int threads, const counts_t& c, int flags = ALL) {
  for (int k = 0; k < 6; k++) { u64 w = (flags >> k & 1) ? t.count(k, a, b) : 0; H::evals++;
    if (c[k] != w) { char s[200]; snprintf(s, sizeof s, "%d threads count %llu %s in [%llu, %llu], there are %llu", threads, (ull) c[k], SO::NAME[k], (ull) a, (ull) b, (ull) w); return s; } }
  return "";
}
static const char* BASE[] = {"continue", "round robin", "reverse"};
static void split() { // every interval: how it is cut never matters
  u64 k = 0, multi = 0;
  struct Z { u64 lo; int na; u64 d0, d1; u64 step; std::vector<int> th; };
  std::vector<Z> zs = {{0, 64, 200, H::thorough ? 1200u : 560u, 1, {2, 3, 5, 8}}, {0, 8, 560, 6000, 17, {2, 4, 7, 8}}, {999983, 31, 600, 1000, 3, {2, 3, 8}}, {1000000000, 4, 20000, 90000, 997, {2, 4, 8}}, {0, 2, 100000, 3000000, 149993, {2, 8}}};
  for (auto& z : zs) {
    SO::Tab t(z.lo, z.lo + z.na + z.d1 + 40);
    for (u64 a = z.lo; a < z.lo + z.na; a++) for (int th : z.th) {
      if (!H::mine(k++)) continue;
      for (u64 d = z.d0; d <= z.d1; d += z.step) {
        u64 b = a + d; H::begin("[%llu, %llu] by %d threads", (ull) a, (ull) b, th); H::distinct++;
        mc::set_base((mc::Base) ((a + d) % 3)); counts_t c; int used; run(a, b, th, 8, ALL, c, &used); multi += used > 1;
        auto e = compare(t, a, b, th, c); if (!e.empty()) H::viol("%s (base scheduler %s)", e.c_str(), BASE[(a + d) % 3]);
      }
    }
  }
  mc::set_base(mc::CONTINUE);
  H::note("intervals cut into chunks", multi);
  H::sample("all [a, a + d] with a < 64, 200 <= d <= 560 by 2, 3, 5 and 8 threads; longer ones to 3000000");
}
struct Cfg { u64 a, b; int th, kb, flags; bool status; int dev; };
static void sched() {
  std::vector<Cfg> v;
  for (bool st : {false, true}) {
    v.push_back({0, 430, 2, 8, ALL, st, 4}); v.push_back({7, 700, 3, 8, ALL, st, 3}); v.push_back({0, 999, 4, 8, COUNT_PRIMES, st, 2}); v.push_back({100, 1500, 2, 16, ALL, st, 3}); v.push_back({5, 2500, 8, 8, COUNT_TWINS | COUNT_PRIMES, st, 1});
    v.push_back({1000, 300000, 3, 8, ALL, st, 1}); v.push_back({1000000, 1900000, 2, 8, ALL, st, 1}); v.push_back({1000000000, 1000100000, 3, 8, COUNT_PRIMES | COUNT_SEXTUPLETS, st, 1});
  }
  u64 k = 0;
  for (auto& C : v) for (int base = 0; base < 3; base++) {
    if (!H::mine(k++)) continue;
    if (!H::time_left()) break;
    mc::set_base((mc::Base) base);
    SO::Tab t(C.a, C.b + 40); u64 chunks = 0;
    char nm[160]; snprintf(nm, sizeof nm, "[%llu, %llu] by %d threads%s, base %s", (ull) C.a, (ull) C.b, C.th, C.status ? " with status" : "", BASE[base]);
    H::begin("%s", nm);
    { counts_t c; std::string e; mc::run_with("", [&]() -> std::string { run(C.a, C.b, C.th, C.kb, C.flags, c); return ""; }); mc::take_reports(); }
    mc::Bounds b; b.max_dev_sched = C.dev + (H::thorough ? 1 : 0); b.max_dev_clock = 0; b.max_wall = H::thorough ? 900 : 40;
    int fails = 0;
    auto r = mc::explore(b, [&]() -> std::string {
      counts_t c; std::string out;
      H::begin("%s", nm);
      if (C.status) out = H::capture([&] { run(C.a, C.b, C.th, C.kb, C.flags | PRINT_STATUS, c); }); else run(C.a, C.b, C.th, C.kb, C.flags, c);
      auto e = compare(t, C.a, C.b, C.th, c, C.flags);
      if (!e.empty()) return e;
      if (C.status) { // the percentages never fall, stay within 0..100 and end with one 100
        int last = -1; size_t i = 0;
        while (i < out.size()) {
          if (out[i] == '\n' ) { if (last != 100 || i + 1 != out.size()) return "status output '" + out + "' has a line end before 100%"; i++; continue; }
          if (out[i] != '\r') return "status output '" + out + "' is garbled";
          size_t e2 = out.find('%', i); if (e2 == std::string::npos) return "status output '" + out + "' is garbled";
          int p = atoi(out.c_str() + i + 1); if (p <= last || p > 100) return "status output '" + out + "' falls or leaves 0..100";
          last = p; i = e2 + 1;
        }
        if (last != 100) return "status output ends at " + std::to_string(last) + "%";
      }
      return "";
    }, [&](const std::string& w, const std::string& ch) { H::viol("%s: %s; choices %s", nm, w.c_str(), ch.c_str()); return ++fails < 2; });
    (void) chunks;
    H::states += r.states; H::transitions += r.transitions; H::traces += r.executions; H::distinct += r.executions; H::exhaustive = H::exhaustive && r.exhaustive;
    H::note("executions with a choice between threads", r.multi_thread_exec);
    H::sample("%s: %llu executions, depth %zu, at most %d deviations%s", nm, (ull) r.executions, r.max_depth, b.max_dev_sched, r.exhaustive ? "" : " (cut by time)");
  }
  mc::set_base(mc::CONTINUE);
  mc::run_with("", []() -> std::string { return ""; });
}
static void real() { // as shipped
  u64 k = 0;
  struct R { u64 a, b; std::vector<int> th; };
  std::vector<R> v = {{0, 20000000, {2}}, {0, 40000000, {1, 2, 3, 4, 8}}, {7, 100000001, {2, 5, 8}}, {999999999, 1060000000, {2, 3, 6}}, {1000000000000ull, 1000080000000ull, {2, 8}}, {4294900000ull, 4334967296ull, {4}}, {M - 1750000000, M, {2}}};
  if (H::thorough) { v.push_back({0, 1000000000, {2, 3, 5, 7, 8}}); v.push_back({100000000000ull, 100500000000ull, {2, 3, 8}}); v.push_back({M - 1900000020, M - 20, {2}}); v.push_back({M - 2700000000ull, M, {3}}); }
  for (auto& q : v) for (int th : q.th) for (int base = 0; base < 3; base++) {
    if (base && th == 1) continue;
    if (q.b >= M - 100 && base) continue;
    if (!H::mine(k++)) continue;
    H::begin("[%llu, %llu] by %d threads as shipped", (ull) q.a, (ull) q.b, th); H::distinct++; H::traces++;
    mc::set_base((mc::Base) base); counts_t c, s; run(q.a, q.b, th, 32, ALL, c);
    mc::set_base(mc::CONTINUE);
    PrimeSieve p; p.setSieveSize(256); p.sieve(q.a, q.b, ALL); s = p.getCounts();
    for (int i = 0; i < 6; i++) { H::evals++; if (c[i] != s[i]) H::viol("%d threads count %llu %s in [%llu, %llu], one thread counts %llu", th, (ull) c[i], SO::NAME[i], (ull) q.a, (ull) q.b, (ull) s[i]); }
  }
  H::sample("%zu intervals of 2*10^7 to 10^8 numbers (thorough 2.7*10^9, up to 2^64 - 1) as shipped, under three schedulers", v.size());
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  std::string mode = H::opt("mode", "small");
  if (mode == "small") split();
  if (mode == "real") real();
  if (mode == "sched") { mc::tsan_on = true; mc::set_max_threads(8); sched(); }
  return H::done();
}
