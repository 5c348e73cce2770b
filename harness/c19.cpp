// C19: nth_prime in both directions, both bindings and the command line.
#include "common.h"
#include "mcrt.h"
#include <primesieve.h>
#include <primesieve.hpp>
#include <algorithm>
#include <cerrno>
typedef uint64_t u64; typedef int64_t i64;
typedef unsigned long long ull;
static const u64 M = ~0ull;
extern "C" int psv_app_main(int, char**);
struct Want { bool ok; u64 p; };
// the primes of [lo, hi] answer every query that stays inside; complete says that there is nothing beyond
struct Tab {
  u64 lo, hi; std::vector<u64> p;
  Tab(u64 lo, u64 hi) : lo(lo), hi(hi), p(O::primes_in(lo, std::min(hi, M - 2))) {}
  bool want(i64 n, u64 s, Want& w) const {
    if (n >= 0) {
      u64 k = n == 0 ? 1 : (u64) n;
      size_t i = (n == 0 ? std::lower_bound(p.begin(), p.end(), s) : std::upper_bound(p.begin(), p.end(), s)) - p.begin();
      if (s < lo) return false;
      if (i + k - 1 < p.size()) { w = {true, p[i + k - 1]}; return true; }
      if (hi == M) { w = {false, 0}; return true; }
      return false;
    }
    u64 k = (u64) 0 - (u64) n; size_t i = std::lower_bound(p.begin(), p.end(), s) - p.begin();
    if (s > hi && hi != M) return false;
    if (i >= k) { w = {true, p[i - k]}; return true; }
    if (lo == 0) { w = {false, 0}; return true; }
    return false;
  }
};
static bool one(const Tab& t, i64 n, u64 s, bool both = true) {
  Want w; if (!t.want(n, s, w)) return false;
  H::begin("nth_prime(%lld, %llu)", (long long) n, (ull) s); H::distinct++; H::evals++;
  bool thrown = false; u64 r = 0;
  try { r = primesieve::nth_prime(n, s); } catch (const primesieve::primesieve_error&) { thrown = true; }
  if (w.ok ? (thrown || r != w.p) : !thrown) H::viol("nth_prime(%lld, %llu) = %s%llu, expected %s%llu", (long long) n, (ull) s, thrown ? "error " : "", (ull) r, w.ok ? "" : "an error ", (ull) w.p);
  if (!both) return true;
  H::evals++; errno = 0; r = primesieve_nth_prime(n, s); int e = errno;
  if (w.ok ? r != w.p : (r != PRIMESIEVE_ERROR || e != EDOM)) H::viol("primesieve_nth_prime(%lld, %llu) = %llu (errno %d), expected %s%llu", (long long) n, (ull) s, (ull) r, e, w.ok ? "" : "an error ", (ull) w.p);
  return true;
}
static void dense() {
  Tab t(0, 60000); const u64 D = H::thorough ? 2000 : 500; const i64 N = H::thorough ? 400 : 130;
  for (u64 s = 0; s <= D; s++) { if (!H::mine(s)) continue; for (i64 n = -N; n <= N; n++) one(t, n, s, s < 60 || n % 7 == 0); }
  H::sample("all |n| <= %lld from all starts <= %llu", (long long) N, (ull) D);
  // all n from 0, all ends of the backward search
  for (u64 n = 1; n <= 5000; n++) if (H::mine(n)) { one(t, (i64) n, 0, n % 16 == 0); one(t, -(i64) n, t.p[n - 1], false); one(t, -(i64) n, t.p[n - 1] + 1, false); one(t, -(i64) n, t.p[n + 3], false); }
}
// short searches from every start of a longer stretch: a search in several rounds meets primes at every round's end
static void starts() {
  struct Z { u64 lo, len; i64 n; };
  std::vector<Z> zs = {{500, H::thorough ? 60000u : 9500u, 24}, {99900, H::thorough ? 20000u : 400u, 40}, {999000, H::thorough ? 6000u : 250u, 60}, {1000000000, H::thorough ? 4000u : 100u, 40}, {4294967200, H::thorough ? 2000u : 100u, 30}};
  for (auto& z : zs) { Tab t(z.lo > 20000 ? z.lo - 20000 : 0, z.lo + z.len + 20000);
    for (u64 s = z.lo; s < z.lo + z.len; s++) { if (!H::mine(s)) continue; for (i64 n = -z.n; n <= z.n; n += n == -1 || n > 0 ? 2 : 1) one(t, n, s, false); } }
  H::sample("|n| <= 24 to 60 from every start of five stretches, %llu to 10000 and 100 to 400 numbers each up to 2^32", (ull) 500);
}
static void structural() {
  u64 k = 0;
  std::vector<u64> cs; for (u64 p : {241, 719, 4999, 65521, 99991}) cs.push_back((u64) p * p); for (int e = 14; e <= 42; e += 2) cs.push_back(1ull << e); for (u64 v = 100000; v <= 1000000000000ull; v *= 10) cs.push_back(v);
  for (u64 c : cs) {
    if (!H::mine(k++)) continue;
    Tab t(c > 40000 ? c - 40000 : 0, c + 40000);
    for (int d = -2; d <= 2; d++) for (i64 n : {-1000, -300, -20, -3, -2, -1, 0, 1, 2, 3, 25, 257, 1000}) one(t, n, c + d, n < 3);
    u64 p = O::next_prime(c), q = O::prev_prime(c);
    for (u64 s : {p - 1, p, p + 1, q - 1, q, q + 1}) for (i64 n : {-2, -1, 0, 1, 2}) one(t, n, s);
  }
}
// beyond the direct walk: the counting phase, forwards and backwards, with threads
static void large() {
  u64 k = 0; u64 hi = H::thorough ? 400000000 : 60000000; Tab t(0, hi);
  std::vector<i64> ns; for (i64 b : {99999, 100000, 100001, 100002, 150000, 200000, 500000, 664579, 664580, 1000000, 2000000, 3000000}) ns.push_back(b);
  if (H::thorough) for (i64 b : {5000000, 9999991, 20000000}) ns.push_back(b);
  for (u64 s : {(u64) 0, (u64) 1, (u64) 2, (u64) 3, (u64) 1000000, t.p[100000], t.p[100000] + 1, t.p[1999999], t.p[3000000] + 1, (u64) 50000000}) for (i64 n : ns) for (int sg : {1, -1}) for (int th : {1, 4}) {
    if (!H::mine(k++)) continue;
    primesieve::set_num_threads(th); one(t, sg * n, s, th == 1 && n % 2 == 0);
    // around the exact number of primes below the start
    if (sg < 0 && n == 100000) { i64 c = std::lower_bound(t.p.begin(), t.p.end(), s) - t.p.begin(); for (i64 d = -2; d <= 2; d++) one(t, -(c + d), s, false); }
  }
  for (u64 c : {1000000000ull, 1000000000000ull}) {
    if (!H::mine(k++)) continue;
    Tab u(c - 8000000, c + 8000000);
    for (int th : {1, 3}) for (i64 n : {100001, 120000, 200000, 250000}) for (int sg : {1, -1}) { primesieve::set_num_threads(th); one(u, sg * n, c, false); one(u, sg * n, c + 12345, false); }
  }
  primesieve::set_num_threads(1);
  H::sample("n up to %lld from and to primes below %llu (counting phase, 1 and 4 threads)", (long long) ns.back(), (ull) hi);
}
static void top() {
  u64 k = 0; Tab t(M - 3000000, M);
  std::vector<std::pair<i64, u64>> v = {{1, M - 59}, {1, M - 58}, {1, M}, {0, M}, {0, M - 58}, {0, M - 57}, {-1, M}, {-1, M - 58}, {-1, M - 57}, {2, M - 100}, {-5, M - 1}, {60, M - 2500}, {61, M - 2500}, {-30000, M}, {100, M - 1000}};
  for (auto& q : v) if (H::mine(k++)) one(t, q.first, q.second, k % 3 == 0);
  H::sample("%zu searches across 2^64 - 1", v.size());
}
// |n| of every magnitude: the answer (there is no such prime) must come, and soon
static void huge() {
  u64 k = 0;
  for (u64 s : {(u64) 0, (u64) 1, (u64) 2, (u64) 3, (u64) 100, (u64) 1000, (u64) 1000000, (u64) 20000000, (u64) 4294967296}) {
    if (!H::mine(k++)) continue;
    for (int e = 28; e <= 63; e++) for (i64 d : {-1, 0, 1}) {
      i64 n = (i64) ((u64) 0 - (1ull << e) + d); if (n > 0) n = INT64_MIN + 1;
      if (s > 30000000 && (d || e % 5 != 3)) continue;
      H::begin("nth_prime(%lld, %llu)", (long long) n, (ull) s); H::evals++; H::distinct++;
      auto P = H::run_forked([&] { int bad = 0; try { primesieve::nth_prime(n, s); bad = 1; } catch (const primesieve::primesieve_error&) {} errno = 0; if (s < 5000 && (primesieve_nth_prime(n, s) != PRIMESIEVE_ERROR || errno != EDOM)) bad |= 2; return bad; }, 20);
      if (P.timeout) { H::viol("nth_prime(%lld, %llu) does not return", (long long) n, (ull) s); break; }
      if (P.sig || P.code) H::viol("nth_prime(%lld, %llu) ends with %d, signal %d instead of an error", (long long) n, (ull) s, P.code, P.sig);
    }
  }
  for (int e : {24, 40, 53, 59, 60, 62, 63}) {
    if (!H::mine(k++)) continue;
    i64 n = e == 63 ? INT64_MAX : (i64) 1 << e; u64 s = M - 1000 * (u64) e;
    H::begin("nth_prime(%lld, %llu)", (long long) n, (ull) s); H::evals++; H::distinct++;
    auto P = H::run_forked([&] { try { primesieve::nth_prime(n, s); return 1; } catch (const primesieve::primesieve_error&) { return 0; } }, 60);
    if (P.timeout) H::viol("nth_prime(%lld, %llu) does not return", (long long) n, (ull) s);
    else if (P.sig || P.code) H::viol("nth_prime(%lld, %llu) ends with %d, signal %d instead of an error", (long long) n, (ull) s, P.code, P.sig);
  }
  H::sample("n = -2^e, e = 28..63, from starts up to 2^32; n = 2^24..2^63 near 2^64");
}
static void settings() { // sieve sizes
  Tab t(0, 5000000); u64 k = 0;
  for (int kb : {8, 16, 128, 1024, 4096}) for (i64 n : {1, 100, 99999, 100001, 200000, 348513}) for (u64 s : {(u64) 0, (u64) 1000, (u64) 1000000}) {
    if (!H::mine(k++)) continue;
    primesieve::set_sieve_size(kb); one(t, n, s, false); one(t, -n, 4999999 - s, false); primesieve::set_sieve_size(32);
  }
}
static void cli() {
  Tab t(0, 3000000); u64 k = 0;
  struct Cs { std::vector<std::string> a; i64 n; u64 s; };
  std::vector<Cs> v;
  for (i64 n : {0, 1, 2, 3, 100, 1000, 99999, 100001, 150000}) for (u64 s : {0, 2, 3, 100, 7919, 100000}) {
    std::string a = std::to_string(n), b = std::to_string(s);
    v.push_back({{a, b, "-n", "-q"}, n, s}); if (!s) { v.push_back({{"-n", a, "-q"}, n, 0}); v.push_back({{a, "--nth-prime", "-t4", "-s8"}, n, 0}); v.push_back({{a, "--nthprime", "--time", "--no-status"}, n, 0}); }
  }
  for (auto& c : v) {
    if (!H::mine(k++)) continue;
    std::string line; for (auto& s : c.a) line += " " + s;
    H::begin("primesieve%s", line.c_str()); H::distinct++; H::evals++;
    auto p = H::run_forked([&] { std::vector<std::string> a = c.a; a.insert(a.begin(), "primesieve"); std::vector<char*> b; for (auto& s : a) b.push_back(&s[0]); b.push_back(nullptr); return psv_app_main((int) a.size(), b.data()); }, 60);
    Want w; t.want(c.n, c.s, w);
    std::string want = "Nth prime: " + std::to_string(w.p) + "\n"; size_t z = p.out.find("Nth prime: ");
    if (!p.exited || p.code || z == std::string::npos || p.out.substr(z) != want) H::viol("primesieve%s prints '%s' (status %d), expected '%s'", line.c_str(), p.out.c_str(), p.status, want.c_str());
  }
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  primesieve::set_num_threads(1); primesieve::set_sieve_size(32);
  if (H::on("cli")) cli();
  if (H::on("dense")) dense();
  if (H::on("starts")) starts();
  if (H::on("structural")) structural();
  if (H::on("settings")) settings();
  if (H::on("huge")) huge();
  if (H::on("large")) large();
  if (H::on("top")) top();
  return H::done();
}
