// C22: printed primes and k-tuplets are exactly those of the interval, in order.
#include "sieveo.h"
#include "mcrt.h"
#include <primesieve.h>
#include <primesieve.hpp>
#include <primesieve/PrimeSieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <iostream>
typedef uint64_t u64;
typedef unsigned long long ull;
static const u64 M = ~0ull;
extern "C" int psv_app_main(int, char**);
static void (*CPP[6])(u64, u64) = {primesieve::print_primes, primesieve::print_twins, primesieve::print_triplets, primesieve::print_quadruplets, primesieve::print_quintuplets, primesieve::print_sextuplets};
static void (*CC[6])(u64, u64) = {primesieve_print_primes, primesieve_print_twins, primesieve_print_triplets, primesieve_print_quadruplets, primesieve_print_quintuplets, primesieve_print_sextuplets};
static std::string text(const SO::Tab& t, int k, u64 a, u64 b) {
  std::string s;
  if (a > b) return s;
  if (k == 0) { for (auto it = std::lower_bound(t.p.begin(), t.p.end(), a); it != t.p.end() && *it <= b; ++it) s += std::to_string(*it) + "\n"; return s; }
  auto it = std::lower_bound(t.tup[k].begin(), t.tup[k].end(), a, [](const SO::Tab::Tup& x, u64 v) { return x.first < v; });
  for (; it != t.tup[k].end() && it->first <= b; ++it) if (it->last <= b) { s += "("; for (size_t i = 0; i < it->m.size(); i++) s += std::to_string(it->m[i]) + (i + 1 < it->m.size() ? ", " : ")\n"); }
  return s;
}
static void cmp(const char* who, int k, u64 a, u64 b, const std::string& got, const std::string& want) {
  H::evals++;
  if (got == want) return;
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  size_t l = i > 60 ? i - 60 : 0;
  H::viol("%s %s in [%llu, %llu]: output differs at byte %zu: '%s' instead of '%s'", who, SO::NAME[k], (ull) a, (ull) b, i, got.substr(l, 140).c_str(), want.substr(l, 140).c_str());
}
static void one(const SO::Tab& t, u64 a, u64 b, bool both, int only = -1) {
  H::begin("print [%llu, %llu]", (ull) a, (ull) b); H::distinct++;
  for (int k = 0; k < 6; k++) {
    if (only >= 0 && k != only) continue;
    auto w = text(t, k, a, b);
    cmp("printing", k, a, b, H::capture([&] { CPP[k](a, b); std::cout.flush(); }), w);
    if (both) cmp("C printing", k, a, b, H::capture([&] { CC[k](a, b); std::cout.flush(); }), w);
  }
}
static void dense() {
  const u64 D = H::thorough ? 420 : 190; SO::Tab t(0, D + 30);
  for (u64 a = 0; a <= D; a++) if (H::mine(a)) for (u64 b = a > 2 ? a - 2 : 0; b <= D; b++) one(t, a, b, a < 40 || b - a < 30);
  H::sample("all six print functions for all a, b <= %llu", (ull) D);
}
static void windows() {
  u64 n = 0; struct C { u64 c; int w; }; std::vector<C> cs;
  for (u64 m : {1, 2}) cs.push_back({245760 * m, 17}), cs.push_back({491520 * m, 12});
  for (u64 p : {97ull, 16057ull, 19417ull, 43777ull, 1091257ull, 1615837ull}) cs.push_back({p + 8, 14});
  for (u64 p : {31, 241, 719, 1433, 65537}) cs.push_back({(u64) p * p, 7});
  for (u64 v : {1000000ull, 4294967296ull, 1000000000000ull}) cs.push_back({v, 7});
  for (auto& c : cs) { if (!H::mine(n++)) continue; int w = H::thorough ? c.w * 2 : c.w; SO::Tab t(c.c - w, c.c + w + 20); primesieve::set_sieve_size(c.c % 491520 ? 8 : 16);
    for (u64 a = c.c - w; a <= c.c + w; a++) for (u64 b = a; b <= c.c + w; b++) one(t, a, b, false); primesieve::set_sieve_size(32); }
  H::sample("all intervals inside windows around %zu segment ends, sextuplets, prime squares and powers", cs.size());
}
static void longs() {
  u64 n = 0; struct C { u64 lo, len; int kbs; };
  std::vector<C> cs = {{0, 4000000, 10}, {999983, 3000000, 5}, {1000000000, 9000000, 10}, {1000000000000ull, 5000000, 4}, {M - 2000000, 2000000 - 2, 1}};
  if (H::thorough) cs.push_back({0, 300000000, 10}), cs.push_back({100000000000000ull, 50000000, 3});
  for (auto& c : cs) for (int i = 0; i < c.kbs; i++) for (int k = 0; k < 6; k++) {
    if (c.lo > 10000000000000000ull && k > 1) continue;
    if (!H::mine(n++)) continue;
    SO::Tab t(c.lo, c.lo + c.len); primesieve::set_sieve_size(8 << i);
    one(t, c.lo, c.lo + c.len, i == 0, k); one(t, c.lo + 13, c.lo + c.len - 245760, false, k); primesieve::set_sieve_size(32);
  }
  H::sample("all primes and tuplets of intervals of up to 9*10^6 numbers with sieves of 8 to 4096 KiB");
}
// one object printing again and again, printing and counting at once, a parallel object asked to print
static void object() {
  using namespace primesieve; SO::Tab t(0, 700100); u64 n = 0;
  std::vector<std::pair<u64, u64>> iv = {{0, 30}, {7, 7}, {30, 20}, {100, 500}, {0, 600000}};
  for (int k = 0; k < 6; k++) for (int c = 0; c < 64; c += 7) for (int cls = 0; cls < 2; cls++) {
    if (!H::mine(n++)) continue;
    PrimeSieve* ps = cls ? new ParallelSieve : new PrimeSieve; ps->setSieveSize(8);
    for (auto& x : iv) for (auto& y : iv) for (auto& z : {x, y}) {
      H::begin("object prints %d counts %d", k, c); H::distinct++; H::transitions++;
      cmp("object printing", k, z.first, z.second, H::capture([&] { ps->sieve(z.first, z.second, (PRINT_PRIMES << k) | c); std::cout.flush(); }), text(t, k, z.first, z.second));
      for (int i = 0; i < 6; i++) { H::evals++; u64 w = (c >> i & 1) ? t.count(i, z.first, z.second) : 0; if (ps->getCount(i) != w) H::viol("counting %s while printing %s in [%llu, %llu] gives %llu, there are %llu", SO::NAME[i], SO::NAME[k], (ull) z.first, (ull) z.second, (ull) ps->getCount(i), (ull) w); }
    }
    delete ps;
  }
}
static void cli() {
  SO::Tab t(0, 600100); u64 n = 0;
  struct Cs { std::vector<std::string> a; u64 lo, hi; int k; int count; };
  std::vector<Cs> v;
  for (auto& q : std::vector<std::pair<u64, u64>>{{0, 0}, {0, 2}, {3, 19}, {5, 17}, {0, 100}, {90, 80}, {97, 113}, {200, 500000}}) for (int k = 0; k < 6; k++) {
    std::string a = std::to_string(q.first), b = std::to_string(q.second), p = "-p" + std::to_string(k + 1), pp = "--print=" + std::to_string(k + 1);
    v.push_back({{a, b, p}, q.first, q.second, k, 0}); v.push_back({{pp, a, b, "-s8", "-t8"}, q.first, q.second, k, 0}); v.push_back({{a, b, p, "-c"}, q.first, q.second, k, 1}); v.push_back({{p, "-t", "2", "--no-status", "-q", a, b}, q.first, q.second, k, 0});
    if (k == 0) { v.push_back({{a, b, "-p"}, q.first, q.second, 0, 0}); v.push_back({{a, b, "--print"}, q.first, q.second, 0, 0}); }
    if (!q.first) v.push_back({{b, p}, 0, q.second, k, 0});
    if (q.second >= q.first) v.push_back({{a, "-d" + std::to_string(q.second - q.first), p}, q.first, q.second, k, 0});
  }
  for (auto& c : v) {
    if (!H::mine(n++)) continue;
    std::string line; for (auto& s : c.a) line += " " + s;
    H::begin("primesieve%s", line.c_str()); H::distinct++;
    auto p = H::run_forked([&] { std::vector<std::string> a = c.a; a.insert(a.begin(), "primesieve"); std::vector<char*> b; for (auto& s : a) b.push_back(&s[0]); b.push_back(nullptr); return psv_app_main((int) a.size(), b.data()); }, 60);
    std::string w = text(t, c.k, c.lo, c.hi); if (c.count) w += "Primes: " + std::to_string(t.count(0, c.lo, c.hi)) + "\n";
    if (!p.exited || p.code) H::viol("primesieve%s: status %d", line.c_str(), p.status);
    cmp(("primesieve" + line + " printing").c_str(), c.k, c.lo, c.hi, p.out, w);
  }
  H::sample("%zu command lines", v.size());
}
int main(int argc, char** argv) {
  H::init(argc, argv); primesieve::set_num_threads(8); primesieve::set_sieve_size(32);
  if (H::on("cli")) cli();
  if (H::on("dense")) dense();
  if (H::on("windows")) windows();
  if (H::on("object")) object();
  if (H::on("longs")) longs();
  return H::done();
}
