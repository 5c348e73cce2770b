// C17: counts of primes and prime k-tuplets in [start, stop] are exact, for every
// interval, sieve size and history of the sieve object, in both bindings and on the command line.
#include "sieveo.h"
#include "mcrt.h"
#include <primesieve.h>
#include <primesieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <primesieve/PrimeSieve.hpp>
#include <primesieve/pmath.hpp>
#include <algorithm>
#include <set>
#include <cstring>
#include <unistd.h>
typedef uint64_t u64;
using namespace primesieve;
extern "C" int psv_app_main(int, char**);
typedef unsigned long long ull;
static const int ALL = COUNT_PRIMES | COUNT_TWINS | COUNT_TRIPLETS | COUNT_QUADRUPLETS | COUNT_QUINTUPLETS | COUNT_SEXTUPLETS;
static const u64 M = ~0ull;
static u64 (*CPP[6])(u64, u64) = {count_primes, count_twins, count_triplets, count_quadruplets, count_quintuplets, count_sextuplets};
static u64 (*CC[6])(u64, u64) = {primesieve_count_primes, primesieve_count_twins, primesieve_count_triplets, primesieve_count_quadruplets, primesieve_count_quintuplets, primesieve_count_sextuplets};
static void cmp(const char* who, int k, u64 a, u64 b, u64 got, u64 want) {
  H::evals++;
  if (got != want) H::viol("%s of %s in [%llu, %llu] = %llu, there are %llu", who, SO::NAME[k], (ull) a, (ull) b, (ull) got, (ull) want);
}
// one sieve object, all six counts at once
static void one(const SO::Tab& t, u64 a, u64 b, int kb) {
  H::begin("sieve [%llu, %llu] with %d KiB", (ull) a, (ull) b, kb); H::distinct++;
  PrimeSieve ps; ps.setSieveSize(kb); ps.sieve(a, b, ALL);
  for (int k = 0; k < 6; k++) cmp("PrimeSieve count", k, a, b, ps.getCount(k), t.count(k, a, b));
}
static void dense() { // every interval below a bound, every function of both bindings
  const u64 D = H::thorough ? 700 : 260; SO::Tab t(0, D + 30);
  for (u64 a = 0; a <= D; a++) {
    if (!H::mine(a)) continue;
    for (u64 b = a > 3 ? a - 3 : 0; b <= D; b++) {
      H::begin("count_*(%llu, %llu)", (ull) a, (ull) b); H::distinct++;
      for (int k = 0; k < 6; k++) {
        u64 w = t.count(k, a, b);
        cmp("count", k, a, b, CPP[k](a, b), w);
        if (a < 60 || (b - a) < 60) cmp("C count", k, a, b, CC[k](a, b), w);
      }
    }
  }
  H::sample("count_primes ... count_sextuplets(a, b) for all a, b <= %llu", (ull) D);
}
static void windows() { // all intervals around structural points
  struct C { u64 c; int w; };
  std::vector<C> cs;
  for (u64 kb : {8, 16, 32, 64}) for (u64 k : {1, 2, 3}) cs.push_back({kb * 1024 * 30 * k, 20});
  for (u64 p : {7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 127, 163, 167, 241, 243, 251, 257, 509, 719, 727, 1429, 1433, 1439, 2039, 8191, 11467, 11471, 40949, 40961, 65521, 65537}) cs.push_back({(u64) p * p, p < 3000 ? 17 : 6});
  for (u64 p : {13, 17, 163, 243, 719, 1433, 40961}) cs.push_back({(u64) p * O::next_prime(p), 6});
  for (int e = 8; e <= 44; e++) cs.push_back({1ull << e, e <= 32 ? 15 : 4});
  for (u64 v = 1000; v <= 100000000000000ull; v *= 10) cs.push_back({v, v <= 10000000000ull ? 15 : 4});
  for (u64 v : {(u64) 9699690, (u64) 223092870, (u64) 6469693230, (u64) 200560490130ull}) cs.push_back({v, v < 10000000000ull ? 17 : 6});
  // first members of quintuplets and sextuplets
  for (u64 v : {97ull, 16057ull, 19417ull, 43777ull, 1091257ull, 1615837ull, 1954357ull, 2822707ull, 2839927ull, 3243337ull}) cs.push_back({v + 8, 16});
  u64 n = 0;
  for (auto& c : cs) {
    if (!H::mine(n++)) continue;
    int w = H::thorough ? c.w * 2 : c.w;
    u64 lo = c.c > (u64) w ? c.c - w : 0, hi = c.c + w; SO::Tab t(lo, hi + 20);
    for (int kb : {8, 64}) { if (kb == 64 && c.c > 1000000000000ull && !H::thorough) continue;
      for (u64 a = lo; a <= hi; a++) for (u64 b = a; b <= hi; b++) one(t, a, b, kb); }
  }
  H::sample("all intervals inside a window around %zu structural points (multiples of the segment, prime squares, powers of 2 and 10)", cs.size());
}
static void longs() { // intervals of several segments, all sieve sizes
  struct C { u64 lo, len; int kbs; };
  std::vector<C> cs;
  for (u64 lo : {0ull, 1ull, 7ull, 100ull, 245757ull, 1000003ull}) cs.push_back({lo, 3000000, 10});
  for (u64 lo : {30000001ull, 1000000000ull, 4294900000ull, 10000000019ull}) cs.push_back({lo, 5000000, 4});
  for (u64 lo : {1000000000039ull, 99999999999973ull}) cs.push_back({lo, 6000000, 3});
  cs.push_back({1000000000000003ull, 4000000, 2}); cs.push_back({99999999999999977ull, 4000000, 1}); 
  cs.push_back({7500000000000000001ull, 3000000, 1});
  if (H::thorough) { cs.push_back({0, 200000000, 10}); cs.push_back({1000000000000ull, 200000000, 4}); cs.push_back({100000000000000ull, 200000000, 3}); cs.push_back({10000000000000000ull, 100000000, 2}); cs.push_back({1000000000000000000ull, 50000000, 2}); }
  u64 n = 0;
  for (auto& c : cs) for (int i = 0; i < c.kbs; i++) {
    if (!H::mine(n++)) continue;
    int kb = 8 << i;
    SO::Tab t(c.lo, c.lo + c.len + 40);
    std::set<std::pair<u64, u64>> ab; u64 seg = (u64) kb * 1024 * 30;
    for (u64 d : {0, 1, 4, 7, 29, 31}) ab.insert({c.lo + d, c.lo + c.len - 3 * d});
    for (u64 k = 1; k * seg < c.len && k <= 13; k += 4) for (int d = -2; d <= 2; d++) ab.insert({c.lo + 3, (c.lo + k * seg) / 30 * 30 + 6 + d}), ab.insert({(c.lo + k * seg) / 30 * 30 + 7 + d, c.lo + c.len});
    size_t cap = c.lo > 1000000000000ull ? (c.lo > 100000000000000ull ? (c.lo > 1000000000000000ull ? 1 : 4) : 10) : 40; size_t m = 0;
    for (auto& q : ab) { if (m++ >= cap) break; one(t, q.first, q.second, kb); }
  }
  H::sample("intervals of up to %s numbers in segments of 8 to 4096 KiB, start up to 7.5e18", H::thorough ? "2e8" : "6e6");
}
static void ends() { // every end position of an interval across whole segments
  for (int kb : {8, 16}) for (u64 base : {0ull, 10000000000ull}) {
    u64 seg = (u64) kb * 1024 * 30; SO::Tab t(base, base + 2 * seg + 200);
    for (int d = -40; d <= 40; d++) for (int e = -3; e <= 3; e++) {
      if (!H::mine((u64) (d + 40) * 7 + e + 3)) continue;
      one(t, base + 50 + e, base + seg + d, kb); one(t, base + 50 + d, base + 50 + seg + d + e, kb); one(t, base + seg + d + e, base + 2 * seg + d, kb);
    }
  }
}
static void top() { // the end of the 64-bit range
  std::vector<std::pair<u64, u64>> v = {{M - 400, M}, {M, M}, {M - 58, M - 58}, {M - 58, M - 1}, {M - 57, M}, {M - 100000, M - 59}, {M - 2000000, M}, {M - 30 * 8 * 1024, M}, {M - 31, M - 29}, {M - 120, M - 15},
    {18446744030759878681ull - 4, 18446744030759878681ull + 4}, {18446744030759878681ull + 1, 18446744065119617025ull}, {4294967291ull * 4294967291ull, 4294967291ull * 4294967291ull}};
  u64 n = 0;
  for (auto& q : v) {
    if (!H::mine(n++)) continue;
    u64 a = q.first, b = q.second; if (b - a > 3000000) b = a + 3000000;
    SO::Tab t(a > 40 ? a - 40 : 0, std::min(b, M - 2) );
    H::begin("count_*(%llu, %llu)", (ull) a, (ull) b); H::distinct++;
    PrimeSieve ps; ps.setSieveSize(n % 2 ? 32 : 256); ps.sieve(a, b, ALL);
    for (int k = 0; k < 6; k++) cmp("PrimeSieve count", k, a, b, ps.getCount(k), t.count(k, a, std::min(b, M - 2)));
    u64 w = t.count(0, a, std::min(b, M - 2));
    cmp("count", 0, a, b, count_primes(a, b), w);
  }
  if (H::mine(n)) { if (get_max_stop() != M || primesieve_get_max_stop() != M) H::viol("the maximum stop is not 2^64 - 1"); H::evals += 2;
    for (u64 a : {(u64) 5, M - 5, M}) for (int k = 0; k < 6; k++) { cmp("count", k, a, a - 1, CPP[k](a, a - 1), 0); cmp("C count", k, a, a - 3, CC[k](a, a - 3), 0); } }
  H::sample("13 intervals touching 2^64 - 1 or the largest prime squares");
}
static void history() { // operation sequences on one object: breadth-first over all sequences of the alphabet
  struct Op { int kind; u64 a, b; int f; };
  std::vector<Op> ops = {
    {0, 0, 100, ALL}, {0, 7, 7, COUNT_PRIMES}, {0, 5, 17, COUNT_QUINTUPLETS | COUNT_TWINS}, {0, 90, 80, ALL}, {0, 0, 2, ALL}, {0, 100000, 800000, ALL}, {0, 1000000000, 1000300000, COUNT_PRIMES | COUNT_TRIPLETS}, {0, 6, 6, ALL},
    {1, 8, 0, 0}, {1, 64, 0, 0}, {2, 200, 1000, 0}, {2, 0, 30, 0}, {3, 0, 0, COUNT_SEXTUPLETS}, {4, 3, 9, 0}};
  SO::Tab t0(0, 1000), t1(100000 - 100, 800100), t2(1000000000 - 100, 1000300100);
  auto tab = [&](u64 b) -> const SO::Tab& { return b <= 1000 ? t0 : b <= 900000 ? t1 : t2; };
  int depth = H::thorough ? 4 : 3; u64 tot = 1; for (int i = 0; i < depth; i++) tot *= ops.size();
  for (u64 s = 0; s < tot; s++) {
    if (!H::mine(s)) continue;
    H::begin("history %llu", (ull) s);
    for (int cls = 0; cls < 2; cls++) {
      PrimeSieve* ps = cls ? new ParallelSieve : new PrimeSieve; int fl = COUNT_PRIMES; u64 q = s; std::string h;
      ps->setSieveSize(16);
      for (int d = 0; d < depth; d++, q /= ops.size()) {
        auto& o = ops[q % ops.size()]; h += std::to_string(q % ops.size()) + " "; H::transitions++;
        u64 a = o.a, b = o.b; bool run = true; bool all = true;
        if (o.kind == 0) { fl = o.f; ps->sieve(a, b, fl); }
        else if (o.kind == 1) { ps->setSieveSize((int) a); run = false; if (ps->getSieveSize() != (int) a) H::viol("setSieveSize(%d) gives %d", (int) a, ps->getSieveSize()); }
        else if (o.kind == 2) ps->sieve(a, b);
        else if (o.kind == 3) { ps->addFlags(o.f); fl |= o.f; run = false; }
        else { all = false; u64 c = ps->countPrimes(a, b); fl = COUNT_PRIMES; cmp(("history " + h).c_str(), 0, a, b, c, tab(b).count(0, a, b)); }
        if (run && all) for (int k = 0; k < 6; k++) cmp(("history " + h).c_str(), k, a, b, ps->getCount(k), (fl >> k & 1) ? tab(b).count(k, a, b) : 0);
      }
      delete ps;
    }
    H::distinct++; H::traces++;
  }
  H::note("operation sequences on one sieve object", tot / H::shards);
  // every subset of the six counts
  for (int f = 1; f < 64; f++) if (H::mine(f)) {
    H::begin("flags %d", f); H::distinct++;
    for (auto& q : std::vector<std::pair<u64, u64>>{{0, 1000}, {3, 17}, {100000, 800000}}) {
      PrimeSieve ps; ps.setSieveSize(8); ps.sieve(q.first, q.second, f);
      for (int k = 0; k < 6; k++) cmp("flag subset count", k, q.first, q.second, ps.getCount(k), (f >> k & 1) ? tab(q.second).count(k, q.first, q.second) : 0);
    }
  }
  H::sample("all sequences of %d operations (sieve, countPrimes, setSieveSize, addFlags) on one PrimeSieve and one ParallelSieve", depth);
}
static void settings() { // sieve sizes and thread numbers: clamped as documented, never changing a count
  SO::Tab t(0, 3000100);
  u64 n = 0;
  for (int s : {-2147483647 - 1, -1, 0, 1, 7, 8, 9, 15, 16, 17, 31, 63, 100, 127, 128, 1000, 2047, 2048, 4095, 4096, 4097, 10000, 2147483647}) {
    if (!H::mine(n++)) continue;
    H::begin("set_sieve_size(%d)", s); H::distinct++;
    int w = 8; while (w * 2 <= std::min(std::max(s, 8), 4096)) w *= 2;
    set_sieve_size(s); H::evals += 2;
    if (get_sieve_size() != w || primesieve_get_sieve_size() != w) H::viol("set_sieve_size(%d): the size is %d, documented %d", s, get_sieve_size(), w);
    for (int k = 0; k < 6; k++) cmp("count", k, 3, 3000000, CPP[k](3, 3000000), t.count(k, 3, 3000000));
    for (int k = 0; k < 6; k++) cmp("C count", k, 0, 299999, CC[k](0, 299999), t.count(k, 0, 299999));
    set_sieve_size(32);
  }
  int hw = ParallelSieve::getMaxThreads();
  for (int s : {-2147483647 - 1, -1, 0, 1, 2, 3, 7, 8, 9, 100, 2147483647}) {
    if (!H::mine(n++)) continue;
    H::begin("set_num_threads(%d)", s); H::distinct++;
    set_num_threads(s); int w = std::min(std::max(s, 1), hw); H::evals += 2;
    if (get_num_threads() != w || primesieve_get_num_threads() != w) H::viol("set_num_threads(%d): %d threads, documented %d", s, get_num_threads(), w);
    for (int k = 0; k < 6; k++) cmp("count", k, 5, 3000000, CPP[k](5, 3000000), t.count(k, 5, 3000000));
    set_num_threads(1);
  }
}
static void cli() {
  SO::Tab t(0, 2000100); u64 n = 0;
  struct Cs { std::vector<std::string> a; u64 lo, hi; int mask; };
  std::vector<Cs> cs;
  auto add = [&](std::vector<std::string> a, u64 lo, u64 hi, int mask) { cs.push_back({a, lo, hi, mask}); };
  for (auto& q : std::vector<std::pair<u64, u64>>{{0, 0}, {0, 1}, {0, 2}, {2, 3}, {3, 5}, {0, 17}, {5, 17}, {6, 23}, {90, 80}, {100, 200}, {97, 113}, {0, 1000000}, {1, 2000000}, {245759, 491521}}) {
    std::string a = std::to_string(q.first), b = std::to_string(q.second);
    add({a, b}, q.first, q.second, 1);
    for (auto c : {"-c1", "-c2", "-c3", "-c4", "-c5", "-c6", "-c123456", "--count=26", "-c"}) {
      std::string cc = c; int m = 0; for (char ch : cc) if (ch >= '1' && ch <= '6') m |= 1 << (ch - '1'); if (!m) m = 1;
      add({a, b, cc, "-q"}, q.first, q.second, m);
      if (cc != "-c") add({cc, "-s", "16", "-t4", a, b, "--no-status"}, q.first, q.second, m);
    }
    if (q.first <= q.second) { add({a, "-d" + std::to_string(q.second - q.first), "-q"}, q.first, q.second, 1); add({a, "--dist=" + std::to_string(q.second - q.first), "-c26", "-q", "--time"}, q.first, q.second, 34); add({a, "-d", std::to_string(q.second - q.first), "-s4096", "--quiet"}, q.first, q.second, 1); }
    if (!q.first) { add({b, "-q"}, 0, q.second, 1); add({"-q", "-c2", b}, 0, q.second, 2); add({"-c", "1", "-q", b}, 0, q.second, 1); add({"-c", "35", "-q", b}, 0, q.second, 20); }
  }
  add({"1e6", "-q"}, 0, 1000000, 1); add({"10^3*5", "1e6+7", "-q", "-c3"}, 5000, 1000007, 4); add({"0x10", "0xFFFFF", "-q"}, 16, 0xFFFFF, 1); add({"18446744073709551615", "10", "-q"}, 1, 0, 1); add({"100", "200", "-c1", "-c4", "-q"}, 100, 200, 9);
  static const char* T[6] = {"Primes: ", "Twin primes: ", "Prime triplets: ", "Prime quadruplets: ", "Prime quintuplets: ", "Prime sextuplets: "};
  for (auto& c : cs) {
    if (!H::mine(n++)) continue;
    std::string line; for (auto& s : c.a) line += " " + s;
    H::begin("primesieve%s", line.c_str()); H::distinct++;
    auto p = H::run_forked([&] { std::vector<std::string> a = c.a; a.insert(a.begin(), "primesieve"); std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); return psv_app_main((int) a.size(), v.data()); }, 60);
    H::evals++;
    if (!p.exited || p.code) { H::viol("primesieve%s: status %d", line.c_str(), p.status); continue; }
    std::string want; for (int k = 0; k < 6; k++) if (c.mask >> k & 1) want += T[k] + std::to_string(t.count(k, c.lo, c.hi)) + "\n";
    std::string got = p.out; // result lines are the last ones
    size_t at = std::string::npos; for (int k = 0; k < 6; k++) { size_t z = got.find(T[k]); while (z != std::string::npos && z && got[z-1] != '\n' ) z = got.find(T[k], z + 1); at = std::min(at, z); }
    if (at == std::string::npos || got.substr(at) != want) H::viol("primesieve%s prints '%s', expected '%s'", line.c_str(), got.c_str(), want.c_str());
  }
  // refused arguments: no number, nonzero status
  for (auto& a : std::vector<std::vector<std::string>>{{"-q"}, {"abc"}, {"-5"}, {"1", "2", "-c7"}, {"1", "2", "-c0x"}, {"10", "-x"}, {"10", "--count=9"}, {"10", "--size="}, {"10", "-s"}, {"10", "-t", "-q"}, {"10", "-p7"}, {""}, {"1/0"}, {"10", "--foo=3"}, {"5+"}}) {
    if (!H::mine(n++)) continue;
    std::string line; for (auto& s : a) line += " '" + s + "'";
    H::begin("primesieve%s", line.c_str()); H::distinct++; H::evals++;
    auto p = H::run_forked([&] { std::vector<std::string> b = a; b.insert(b.begin(), "primesieve"); std::vector<char*> v; for (auto& s : b) v.push_back(&s[0]); v.push_back(nullptr); return psv_app_main((int) b.size(), v.data()); }, 60);
    if (!p.exited || !p.code || p.out.find(": ") != std::string::npos) H::viol("primesieve%s is accepted: status %d, '%s'", line.c_str(), p.status, p.out.c_str());
  }
  H::sample("%zu command lines of primesieve", cs.size());
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  set_num_threads(1); set_sieve_size(32);
  if (H::on("cli")) cli();
  if (H::on("dense")) dense();
  if (H::on("settings")) settings();
  if (H::on("windows")) windows();
  if (H::on("ends")) ends();
  if (H::on("history")) history();
  if (H::on("longs")) longs();
  if (H::on("top")) top();
  return H::done();
}
