// C15, sieving library: the status lines of serial and (with the minimal thread distance) parallel sieving.
#include "sieveo.h"
#include "mcrt.h"
#include <primesieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <array>
typedef uint64_t u64;
typedef unsigned long long ull;
using namespace primesieve;
static u64 shown = 0;
static std::string judge(const std::string& out) { // one phase: rises within 0..100 and is complete at the end
  int last = -1; size_t i = 0;
  while (i < out.size()) {
    if (out[i] == '\n') { if (last != 100 || i + 1 != out.size()) return "status output has a line end before 100%"; i++; continue; }
    if (out[i] != '\r') return "status output is garbled";
    size_t j = i + 1, e = j; while (e < out.size() && out[e] >= '0' && out[e] <= '9') e++;
    if (e == j || e - j > 3 || e >= out.size() || out[e] != '%') return "status output has no percentage";
    int p = atoi(out.c_str() + j); if (p > 100) return "status output leaves 0..100"; if (p < last) return "the percentage falls";
    last = p; shown++; i = e + 1;
  }
  if (last != 100) return "status output ends at " + std::to_string(last) + "%";
  return "";
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else r += c; return r; }
static void one(const SO::Tab& t, u64 a, u64 b, int kb, int th, int flags, bool again = false) {
  H::begin("[%llu, %llu] with status, %d KiB, %d threads, flags %d", (ull) a, (ull) b, kb, th, flags); H::evals++; H::distinct++;
  std::array<u64, 6> c{}, d{};
  ParallelSieve par; PrimeSieve ser; PrimeSieve& ps = th > 1 ? (PrimeSieve&) par : ser;
  if (th > 1) par.setNumThreads(th);
  std::string out = H::capture([&] {
    ps.setSieveSize(kb); ps.setStart(a); ps.setStop(b); ps.setFlags(flags | PRINT_STATUS);
    if (th > 1) par.sieve(); else ser.sieve();
  });
  for (int k = 0; k < 6; k++) c[k] = ps.getCount(k);
  std::string e = judge(out);
  if (!e.empty()) H::viol("sieving [%llu, %llu] with %d KiB, %d threads, flags %d prints \"%s\": %s", (ull) a, (ull) b, kb, th, flags, esc(out).substr(0, 300).c_str(), e.c_str());
  for (int k = 0; k < 6; k++) if (flags >> k & 1) { u64 w = t.count(k, a, b); if (c[k] != w) H::viol("with status output, %llu %s in [%llu, %llu] (%d KiB, %d threads), there are %llu", (ull) c[k], SO::NAME[k], (ull) a, (ull) b, kb, th, (ull) w); }
  if (again) { // the same object once more: the status starts again
    out = H::capture([&] { if (th > 1) par.sieve(); else ser.sieve(); });
    e = judge(out); if (!e.empty()) H::viol("sieving [%llu, %llu] a second time with %d KiB, %d threads prints \"%s\": %s", (ull) a, (ull) b, kb, th, esc(out).substr(0, 300).c_str(), e.c_str());
    (void) d; for (int k = 0; k < 6; k++) if (flags >> k & 1 && ps.getCount(k) != t.count(k, a, b)) H::viol("second count of %s in [%llu, %llu] with status", SO::NAME[k], (ull) a, (ull) b);
  }
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  u64 k = 0;
  const int ALL = COUNT_PRIMES | COUNT_TWINS | COUNT_TRIPLETS | COUNT_QUADRUPLETS | COUNT_QUINTUPLETS | COUNT_SEXTUPLETS;
  { // every short interval
    u64 N = H::thorough ? 700 : 260; SO::Tab t(0, N + 40);
    for (u64 a = 0; a <= N; a++) { if (!H::mine(k++)) continue; for (u64 b = a; b <= N; b++) one(t, a, b, (a + b) % 3 ? 8 : 32, 1 + (int) (a % 3 == 0 && b - a >= 200) * 2, (b & 1) ? ALL : COUNT_PRIMES, b % 16 == 0); }
    H::sample("every interval inside [0, %llu] with status output", (ull) N);
  }
  { // lengths around segments and fractions of segments, all sieve sizes, serial and cut in chunks
    std::vector<u64> starts = {0, 1, 7, 1000, 999983, 1000000000ull, 1000000000000ull};
    for (u64 st : starts) {
      u64 top = H::thorough ? 12000000 : 3000000; SO::Tab t(st, st + top + 40);
      for (int kb : {8, 16, 32, 64, 256}) { if (!H::mine(k++)) continue; if (!H::time_left()) break;
        u64 seg = (u64) kb * 1024 * 30;
        std::vector<u64> ls; for (u64 d : {seg / 8, seg / 4, seg / 2, seg, 2 * seg, 3 * seg, 5 * seg, 8 * seg, 12 * seg}) for (int e : {-31, -1, 0, 1, 31}) ls.push_back(d + e);
        for (u64 l = 1000; l < top; l = l * 5 / 3) ls.push_back(l);
        for (u64 l : ls) if (l <= top) for (int th : {1, 2, 5}) { mc::set_base((mc::Base) (l % 3)); one(t, st, st + l, kb, th, l % 2 ? ALL : COUNT_TWINS | COUNT_PRIMES); }
        mc::set_base(mc::CONTINUE);
      }
    }
    H::sample("lengths around every fraction and multiple of a segment to 3*10^6, 5 sieve sizes, 1, 2 and 5 threads");
  }
  { // empty and reversed intervals
    SO::Tab t(0, 1000); if (H::mine(k++)) for (u64 a : {0ull, 1ull, 2ull, 100ull}) one(t, a, a, 8, 1, ALL);
  }
  H::note("percentages shown", shown);
  return H::done();
}
