// C20: stored arrays hold exactly the primes asked for, in every element type,
// or the request is refused through the documented channel.
#include "common.h"
#include "mcrt.h"
#include <primesieve.h>
#include <primesieve.hpp>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <deque>
#include <limits>
typedef uint64_t u64;
typedef unsigned long long ull;
static const u64 M = ~0ull;
template <class T> static u64 cap() { int d = std::numeric_limits<T>::digits; return d >= 64 ? M : (1ull << d) - 1; }
struct Tab {
  u64 lo, hi; std::vector<u64> p;
  Tab(u64 lo, u64 hi) : lo(lo), hi(hi), p(O::primes_in(lo, std::min(hi, M - 2))) {}
  std::vector<u64> in(u64 a, u64 b) const { if (a > b) return {}; return std::vector<u64>(std::lower_bound(p.begin(), p.end(), a), std::upper_bound(p.begin(), p.end(), b)); }
  // the first n primes >= s; ok = false when they do not exist below 2^64
  std::vector<u64> n(u64 n, u64 s, bool& ok) const { auto i = std::lower_bound(p.begin(), p.end(), s); ok = (u64) (p.end() - i) >= n; return std::vector<u64>(i, ok ? i + n : i); }
};
template <class V> static std::string diff(const V* g, size_t gn, const std::vector<u64>& w) {
  if (gn != w.size()) return "holds " + std::to_string(gn) + " primes instead of " + std::to_string(w.size());
  for (size_t i = 0; i < gn; i++) if (g[i] < 0 || (u64) g[i] != w[i]) return "entry " + std::to_string(i) + " is " + std::to_string(g[i]) + " instead of " + std::to_string(w[i]);
  return "";
}
template <class T> static void cpp_range(const Tab& t, u64 a, u64 b, const char* tn) {
  auto w = t.in(a, b); bool fits = w.empty() || w.back() <= cap<T>();
  H::begin("generate_primes<%s>(%llu, %llu)", tn, (ull) a, (ull) b); H::evals++; H::distinct++;
  std::vector<T> v; bool thrown = false;
  try { primesieve::generate_primes(a, b, &v); } catch (const primesieve::primesieve_error&) { thrown = true; }
  if (fits == thrown) { H::viol("generate_primes<%s>(%llu, %llu) %s", tn, (ull) a, (ull) b, thrown ? "is refused although every prime fits" : "stores primes that do not fit the type"); return; }
  if (fits) { auto d = diff(v.data(), v.size(), w); if (!d.empty()) H::viol("generate_primes<%s>(%llu, %llu) %s", tn, (ull) a, (ull) b, d.c_str()); }
}
template <class T> static void cpp_n(const Tab& t, u64 n, u64 s, const char* tn) {
  bool ok; auto w = t.n(n, s, ok); if (!ok && t.hi != M) return;
  bool fits = ok && (w.empty() || w.back() <= cap<T>());
  H::begin("generate_n_primes<%s>(%llu, %llu)", tn, (ull) n, (ull) s); H::evals++; H::distinct++;
  std::vector<T> v; bool thrown = false;
  try { primesieve::generate_n_primes(n, s, &v); } catch (const primesieve::primesieve_error&) { thrown = true; }
  if (fits == thrown) { H::viol("generate_n_primes<%s>(%llu, %llu) %s", tn, (ull) n, (ull) s, thrown ? "is refused although these primes exist and fit" : ok ? "stores primes that do not fit the type" : "answers although these primes do not exist"); return; }
  if (fits) { auto d = diff(v.data(), v.size(), w); if (!d.empty()) H::viol("generate_n_primes<%s>(%llu, %llu) %s", tn, (ull) n, (ull) s, d.c_str()); }
}
template <class T> static void c_range(const Tab& t, u64 a, u64 b, int type, const char* tn) {
  auto w = t.in(a, b); bool fits = w.empty() || w.back() <= cap<T>();
  H::begin("primesieve_generate_primes(%llu, %llu, %s)", (ull) a, (ull) b, tn); H::evals++; H::distinct++;
  size_t n = 77; errno = 0; T* v = (T*) primesieve_generate_primes(a, b, &n, type); int e = errno;
  if (!fits) { if (v || n != 0 || e != EDOM) H::viol("primesieve_generate_primes(%llu, %llu, %s) stores primes that do not fit the type (pointer %d, size %zu, errno %d)", (ull) a, (ull) b, tn, v != nullptr, n, e); }
  else if (!v) H::viol("primesieve_generate_primes(%llu, %llu, %s) is refused although every prime fits", (ull) a, (ull) b, tn);
  else { auto d = diff(v, n, w); if (!d.empty()) H::viol("primesieve_generate_primes(%llu, %llu, %s) %s", (ull) a, (ull) b, tn, d.c_str()); }
  primesieve_free(v);
  if ((a + b) % 5 == 0) { v = (T*) primesieve_generate_primes(a, b, nullptr, type); if ((v != nullptr) != fits) H::viol("primesieve_generate_primes(%llu, %llu, NULL, %s) answers differently without a size", (ull) a, (ull) b, tn); primesieve_free(v); }
}
template <class T> static void c_n(const Tab& t, u64 n, u64 s, int type, const char* tn) {
  bool ok; auto w = t.n(n, s, ok); if (!ok && t.hi != M) return;
  bool fits = ok && (w.empty() || w.back() <= cap<T>());
  H::begin("primesieve_generate_n_primes(%llu, %llu, %s)", (ull) n, (ull) s, tn); H::evals++; H::distinct++;
  errno = 0; T* v = (T*) primesieve_generate_n_primes(n, s, type); int e = errno;
  if (!fits) { if (v || e != EDOM) H::viol("primesieve_generate_n_primes(%llu, %llu, %s) answers although these primes do not %s (errno %d)", (ull) n, (ull) s, tn, ok ? "fit" : "exist", e); }
  else if (!v) H::viol("primesieve_generate_n_primes(%llu, %llu, %s) is refused although these primes exist and fit", (ull) n, (ull) s, tn);
  else { auto d = diff(v, w.size(), w); if (!d.empty()) H::viol("primesieve_generate_n_primes(%llu, %llu, %s) %s", (ull) n, (ull) s, tn, d.c_str()); }
  primesieve_free(v);
}
#define CPPT(F, ...) F<int8_t>(__VA_ARGS__, "int8_t"); F<uint8_t>(__VA_ARGS__, "uint8_t"); F<int16_t>(__VA_ARGS__, "int16_t"); F<uint16_t>(__VA_ARGS__, "uint16_t"); F<int32_t>(__VA_ARGS__, "int32_t"); F<uint32_t>(__VA_ARGS__, "uint32_t"); F<int64_t>(__VA_ARGS__, "int64_t"); F<uint64_t>(__VA_ARGS__, "uint64_t"); F<long long>(__VA_ARGS__, "long long"); F<unsigned long long>(__VA_ARGS__, "unsigned long long");
#define CT(F, ...) F<short>(__VA_ARGS__, SHORT_PRIMES, "short"); F<unsigned short>(__VA_ARGS__, USHORT_PRIMES, "ushort"); F<int>(__VA_ARGS__, INT_PRIMES, "int"); F<unsigned>(__VA_ARGS__, UINT_PRIMES, "uint"); F<long>(__VA_ARGS__, LONG_PRIMES, "long"); F<unsigned long>(__VA_ARGS__, ULONG_PRIMES, "ulong"); F<long long>(__VA_ARGS__, LONGLONG_PRIMES, "longlong"); F<unsigned long long>(__VA_ARGS__, ULONGLONG_PRIMES, "ulonglong"); \
  F<int16_t>(__VA_ARGS__, INT16_PRIMES, "int16"); F<uint16_t>(__VA_ARGS__, UINT16_PRIMES, "uint16"); F<int32_t>(__VA_ARGS__, INT32_PRIMES, "int32"); F<uint32_t>(__VA_ARGS__, UINT32_PRIMES, "uint32"); F<int64_t>(__VA_ARGS__, INT64_PRIMES, "int64"); F<uint64_t>(__VA_ARGS__, UINT64_PRIMES, "uint64");
static void dense() {
  const u64 D = H::thorough ? 800 : 300; Tab t(0, 200000);
  for (u64 a = 0; a <= D; a++) { if (!H::mine(a)) continue;
    for (u64 b = a > 3 ? a - 3 : 0; b <= D; b++) { cpp_range<uint64_t>(t, a, b, "uint64_t"); if (a % 3 == 0) cpp_range<int32_t>(t, a, b, "int32_t"); c_range<uint64_t>(t, a, b, UINT64_PRIMES, "uint64"); if (b < 140 && (a + b) % 4 == 0) { CPPT(cpp_range, t, a, b) CT(c_range, t, a, b) } }
    for (u64 n = 0; n <= 60; n++) { cpp_n<uint64_t>(t, n, a, "uint64_t"); c_n<uint64_t>(t, n, a, UINT64_PRIMES, "uint64"); if (n < 20 && a % 4 == 1) { CPPT(cpp_n, t, n, a) CT(c_n, t, n, a) } }
  }
  H::sample("all intervals inside [0, %llu], all n <= 60 from all starts, 10 C++ and 14 C element types on a quarter of them", (ull) D);
}
// limits of the types: intervals and counts ending just below, at and beyond the largest prime that fits
static void limits() {
  u64 k = 0;
  for (int bits : {7, 8, 15, 16, 31, 32}) {
    u64 c = 1ull << bits; Tab t(c > 3000 ? c - 3000 : 0, c + 3000); u64 last = O::prev_prime(c), nx = O::next_prime(c - 1);
    for (u64 b : {last - 1, last, last + 1, c - 2, c - 1, c, c + 1, nx - 1, nx, nx + 1, nx + 100}) for (u64 a : {t.lo, last - 20, last, last + 1, c, nx, nx + 1}) { if (!H::mine(k++)) continue; CPPT(cpp_range, t, a, b) CT(c_range, t, a, b) }
    u64 j = t.in(t.lo, last).size();
    for (u64 n : {j - 1, j, j + 1, (u64) 1, (u64) 2, (u64) 0}) for (u64 s : {t.lo, last, last + 1, c, nx}) { if (!H::mine(k++)) continue; CPPT(cpp_n, t, n, s) CT(c_n, t, n, s) }
  }
  // all primes of the 16-bit range, from 0
  Tab t(0, 70000);
  for (u64 b : {32749, 32750, 32770, 32771, 65521, 65536, 65537}) if (H::mine(k++)) { CPPT(cpp_range, t, 0, b) CT(c_range, t, 0, b) }
  for (u64 n : {3511, 3512, 3513, 6541, 6542, 6543}) if (H::mine(k++)) { CPPT(cpp_n, t, n, 0) CT(c_n, t, n, 0) }
  H::sample("all element types at 2^7, 2^8, 2^15, 2^16, 2^31, 2^32: last prime that fits, first that does not");
}
static void structural() {
  u64 k = 0;
  for (u64 c : {720ull, 58081ull, 516961ull, 245760ull, 1000000ull, 4294967291ull, 10000000000ull, 1000000000000ull, 25000000000000ull}) {
    if (!H::mine(k++)) continue;
    Tab t(c > 400000 ? c - 400000 : 0, c + 400000);
    for (int da = -4; da <= 4; da++) for (int db : {-2, -1, 0, 1, 2, 30, 1000, 300000}) { cpp_range<uint64_t>(t, c + da, c + da + db, "uint64_t"); c_range<int64_t>(t, c + da, c + da + db, INT64_PRIMES, "int64"); }
    for (int da = -4; da <= 4; da++) for (u64 n : {0, 1, 2, 15, 16, 17, 31, 32, 33, 255, 256, 257, 513, 5000}) { cpp_n<uint64_t>(t, n, c + da, "uint64_t"); c_n<uint64_t>(t, n, c + da, UINT64_PRIMES, "uint64"); }
  }
  // long arrays, all sieve sizes
  u64 L = H::thorough ? 300000000 : 20000000;
  for (int kb : {8, 32, 512, 4096}) { if (!H::mine(k++)) continue; primesieve::set_sieve_size(kb); Tab t(0, L); cpp_range<uint32_t>(t, 0, L, "uint32_t"); c_range<int>(t, 3, L, INT_PRIMES, "int"); cpp_n<int64_t>(t, t.p.size(), 0, "int64_t"); primesieve::set_sieve_size(32); }
}
// runs of primes that stand closer together than the average: more of them than the usual estimate of their number
static void clusters() {
  auto& P = O::small_primes(); Tab t(0, 1000000); const u64 L = H::thorough ? 1000000 : 200000;
  for (size_t n = 14, k = 0; n < 60; n++) {
    for (size_t i = 0; i + n <= P.size() && P[i + n - 1] < L; i++) {
      u64 a = P[i], b = P[i + n - 1]; double r = (double) (b - a + 1) / (std::log((double) b) - 1.1) + 5;
      if (r > n) continue;
      if (!H::mine(k++)) continue;
      c_range<uint64_t>(t, a, b, UINT64_PRIMES, "uint64"); c_range<int>(t, a, b, INT_PRIMES, "int"); cpp_range<uint32_t>(t, a, b, "uint32_t");
    } }
  H::sample("every run of 14 to 59 primes below %llu that is longer than the estimated number of primes of its interval, in 3 storage forms", (ull) L);
}
static void top() {
  Tab t(M - 400000, M); u64 k = 0;
  for (auto& q : std::vector<std::pair<u64, u64>>{{M - 1000, M}, {M, M}, {M - 58, M}, {M - 57, M}, {M - 58, M - 58}, {M - 1, M}, {M - 100000, M - 1}}) { if (!H::mine(k++)) continue; cpp_range<uint64_t>(t, q.first, q.second, "uint64_t"); if (k % 2) c_range<uint64_t>(t, q.first, q.second, UINT64_PRIMES, "uint64"); else c_range<int64_t>(t, q.first, q.second, INT64_PRIMES, "int64"); }
  u64 all = t.in(M - 2000, M - 2).size();
  for (auto& q : std::vector<std::pair<u64, u64>>{{1, M - 58}, {1, M - 57}, {2, M - 100}, {all, M - 2000}, {all + 1, M - 2000}, {0, M}, {1, M}, {all - 1, M - 2000}}) { if (!H::mine(k++)) continue; cpp_n<uint64_t>(t, q.first, q.second, "uint64_t"); c_n<uint64_t>(t, q.first, q.second, UINT64_PRIMES, "uint64"); }
  H::sample("7 intervals and 8 counts ending at 2^64 - 1");
}
// requests that no memory can hold, unknown types, appending, the two argument forms
static void channel() {
  u64 k = 0; Tab t(0, 3000);
  for (int type : {-1, 14, 15, 99, 1 << 30}) { if (!H::mine(k++)) continue; H::begin("type %d", type); H::distinct++; H::evals += 2;
    size_t n = 5; errno = 0; void* v = primesieve_generate_primes(0, 100, &n, type); if (v || n || errno != EDOM) H::viol("primesieve_generate_primes accepts type %d", type);
    errno = 0; v = primesieve_generate_n_primes(5, 0, type); if (v || errno != EDOM) H::viol("primesieve_generate_n_primes accepts type %d", type); }
  for (u64 n : {1ull << 58, 1ull << 60, (1ull << 60) + 1, 1ull << 61, (1ull << 61) + 1, (1ull << 61) + 2, 1ull << 62, (1ull << 62) + 4, 1ull << 63, (1ull << 63) + 8, ~0ull, ~0ull - 16}) {
    if (!H::mine(k++)) continue;
    H::begin("%llu primes", (ull) n); H::distinct++;
    for (int type : {SHORT_PRIMES, INT_PRIMES, UINT64_PRIMES}) {
      H::evals++;
      auto p = H::run_forked([&]() -> int { errno = 0; void* v = primesieve_generate_n_primes(n, 0, type); return v == nullptr && errno == EDOM ? 0 : 3; }, 20);
      if (!p.exited || p.code) H::viol("primesieve_generate_n_primes(%llu, 0, type %d) is not refused: %s %d", (ull) n, type, p.exited ? "status" : "signal", p.exited ? p.code : p.sig);
    }
    auto p = H::run_forked([&]() -> int { std::vector<u64> v; try { primesieve::generate_n_primes(n, 0, &v); } catch (const std::exception&) { return 0; } return 5; }, 20); H::evals++;
    if (!p.exited || p.code) H::viol("generate_n_primes(%llu, 0) is not refused: %s %d", (ull) n, p.exited ? "status" : "signal", p.exited ? p.code : p.sig);
  }
  if (H::mine(k++)) {
    H::begin("append"); H::distinct++; H::evals += 6;
    std::vector<int> v{-7, 9}; primesieve::generate_primes(10, 30, &v); primesieve::generate_n_primes(3, 100, &v); primesieve::generate_primes(6, &v); primesieve::generate_n_primes(2, &v);
    std::vector<int> w{-7, 9, 11, 13, 17, 19, 23, 29, 101, 103, 107, 2, 3, 5, 2, 3};
    if (v != w) H::viol("repeated generate_primes do not append to the vector");
    primesieve::generate_primes(10, 30, (std::vector<int>*) nullptr); primesieve::generate_n_primes(10, 30, (std::vector<int>*) nullptr);
  }
  // refusals of the element type keep what was there before
  if (H::mine(k++)) { H::begin("prefix"); std::vector<uint8_t> v{4, 5}; try { primesieve::generate_primes(200, 300, &v); H::viol("generate_primes<uint8_t>(200, 300) is not refused"); } catch (const primesieve::primesieve_error&) {} if (v.size() < 2 || v[0] != 4 || v[1] != 5) H::viol("a refused request destroys the vector"); H::evals++; }
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  primesieve::set_num_threads(1); primesieve::set_sieve_size(32);
  if (H::on("channel")) channel();
  if (H::on("limits")) limits();
  if (H::on("dense")) dense();
  if (H::on("clusters")) clusters();
  if (H::on("structural")) structural();
  if (H::on("top")) top();
  return H::done();
}
