// C11: integer roots, powers and divisions over structured operand alphabets.
#include "leaves.h"
#include "mcrt.h"
#include "imath.hpp"
#include "fast_div.hpp"
#include "min_max.hpp"
#include "libdivide.h"
#include <set>
using namespace primesum;
typedef uint64_t u64;
static std::string S(i128 v) { return H::s128(v); }
static std::string SU(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int) (v % 10)); v /= 10; } return s; }
// floor root by bisection in 128-bit unsigned arithmetic without overflow
static u128 root(u128 n, int k) {
  u128 lo = 0, hi = k == 1 ? n : (u128) 1 << (128 / k + 1); 
  if (k == 1) return n;
  while (lo < hi) {
    u128 m = lo + (hi - lo + 1) / 2, p = 1; bool over = false;
    for (int i = 0; i < k; i++) { if (m && p > n / m) { over = true; break; } p *= m; }
    if (!over && p <= n) lo = m; else hi = m - 1;
  }
  return lo;
}
static std::vector<u128> alphabet(int bits, int w) { // values of up to `bits` bits
  std::set<u128> s; u128 mx = bits == 128 ? ~(u128) 0 : ((u128) 1 << bits) - 1;
  auto add = [&](u128 v) { if (v <= mx) s.insert(v); };
  for (int b = 0; b < bits; b++) for (int d = -w; d <= w; d++) { u128 v = (u128) 1 << b; if (d < 0 && v < (u128) -d) continue; add(v + d); }
  u128 t = 1; for (int i = 0; i < 39; i++) { if (t > mx) break; for (int d = -2; d <= 2; d++) if (t + d <= mx) add(t + d); if (t > mx / 10) break; t *= 10; }
  for (int d = 0; d <= w; d++) add(mx - d);
  // neighbours of k-th powers: the roots' own step points
  for (int k : {2, 3, 4, 6}) {
    u128 r = root(mx, k); std::vector<u128> rs;
    for (int b = 0; b < 66; b++) for (int d = -2; d <= 2; d++) { u128 v = ((u128) 1 << b) + d; if (v <= r && v > 0) rs.push_back(v); }
    for (u128 q = 3; q <= r; q += q / 3 + 1) rs.push_back(q);
    for (int d = 0; d < 30; d++) if (r > (u128) d) rs.push_back(r - d);
    for (u128 v : rs) { u128 p = 1; for (int i = 0; i < k; i++) p *= v; for (int d = -2; d <= 2; d++) if (!(d < 0 && p < (u128) -d) && p + d <= mx && !(d > 0 && p > mx - d)) s.insert(p + d); }
  }
  return std::vector<u128>(s.begin(), s.end());
}
template <class T> static void roots(const char* nm, const std::vector<u128>& A, u64& k) {
  for (u128 u : A) {
    if (u > (u128) prt::numeric_limits<T>::max()) continue;
    if (!H::mine(k++)) continue;
    T x = (T) u; H::begin("roots of %s (%s)", SU(u).c_str(), nm); H::distinct++; H::evals += 5;
    if ((u128) isqrt(x) != root(u, 2)) H::viol("isqrt<%s>(%s) = %s, exact %s", nm, SU(u).c_str(), SU((u128) isqrt(x)).c_str(), SU(root(u, 2)).c_str());
#define RT(N) if ((u128) iroot<N>(x) != root(u, N)) H::viol("iroot<%d, %s>(%s) = %s, exact %s", N, nm, SU(u).c_str(), SU((u128) iroot<N>(x)).c_str(), SU(root(u, N)).c_str());
    RT(2) RT(3) RT(4) RT(6)
    if (sizeof(T) >= 8) { RT(5) }
  }
}
template <class T> static void small(const char* nm, const std::vector<u128>& A, u64& k) {
  int bits = std::numeric_limits<T>::digits;
  for (u128 u : A) {
    if (u > (u128) prt::numeric_limits<T>::max()) continue;
    if (!H::mine(k++)) continue;
    T x = (T) u; H::begin("powers of two around %s (%s)", SU(u).c_str(), nm); H::distinct++;
    u128 n2 = 1; while (n2 < u && n2 < ((u128) 1 << 127)) n2 <<= 1;
    if (u <= ((u128) 1 << (bits - 1))) { H::evals++; if ((u128) next_power_of_2(x) != n2) H::viol("next_power_of_2<%s>(%s) = %s, exact %s", nm, SU(u).c_str(), SU((u128) next_power_of_2(x)).c_str(), SU(n2).c_str()); }
    if (u) { u128 p2 = 1; while (p2 <= u / 2) p2 <<= 1; H::evals++; if ((u128) prev_power_of_2(x) != p2) H::viol("prev_power_of_2<%s>(%s) = %s, exact %s", nm, SU(u).c_str(), SU((u128) prev_power_of_2(x)).c_str(), SU(p2).c_str()); }
    if (number_of_bits(x) != (T) bits) H::viol("number_of_bits<%s>", nm);
    for (int n = 0; n < 130; n++) { // exact powers as long as they fit
      u128 p = 1; bool fits = true; for (int i = 0; i < n; i++) { if (u && p > (u128) prt::numeric_limits<T>::max() / u) { fits = false; break; } p *= u; }
      if (!fits) break;
      H::evals++; if ((u128) ipow(x, n) != p) H::viol("ipow<%s>(%s, %d) = %s, exact %s", nm, SU(u).c_str(), n, SU((u128) ipow(x, n)).c_str(), SU(p).c_str());
      if (u <= 1 && n > 10) break;
    }
  }
}
template <class X, class Y> static void fdiv(const char* nm, const std::vector<u128>& A, const std::vector<u128>& B, u64& k) {
  for (u128 a : A) {
    if (a > (u128) prt::numeric_limits<X>::max()) continue;
    if (!H::mine(k++)) continue;
    H::begin("fast_div %s of %s", nm, SU(a).c_str()); H::distinct++;
    for (u128 b : B) {
      if (!b || b > (u128) prt::numeric_limits<Y>::max()) continue;
      H::evals++;
      u128 q = (u128) fast_div((X) a, (Y) b);
      if (q != a / b) H::viol("fast_div<%s>(%s, %s) = %s, exact %s", nm, SU(a).c_str(), SU(b).c_str(), SU(q).c_str(), SU(a / b).c_str());
    }
  }
}
template <class A, class B> static void cdiv(const char* nm, const std::vector<u128>& As, const std::vector<u128>& Bs, u64& k) {
  for (u128 a : As) {
    if (!H::mine(k++)) continue;
    for (u128 b : Bs) {
      typedef decltype(A() + B()) C;
      if (!b || b > (u128) prt::numeric_limits<B>::max() || a > (u128) prt::numeric_limits<A>::max() || a + b > (u128) prt::numeric_limits<C>::max()) continue; // a + b is formed first
      H::evals++; u128 w = a / b + (a % b != 0);
      if ((u128) ceil_div((A) a, (B) b) != w) H::viol("ceil_div<%s>(%s, %s) = %s, exact %s", nm, SU(a).c_str(), SU(b).c_str(), SU((u128) ceil_div((A) a, (B) b)).c_str(), SU(w).c_str());
    }
  }
}
template <class T, class D> static void recip(const char* nm, const std::vector<i128>& ds, const std::vector<i128>& ns, u64& k) {
  for (i128 d : ds) {
    if (d == 0 || d < (i128) std::numeric_limits<T>::min() || d > (i128) std::numeric_limits<T>::max()) continue;
    if (!H::mine(k++)) continue;
    H::begin("%s divisor %s", nm, S(d).c_str()); H::distinct++;
    D dv((T) d);
    auto one = [&](i128 n) {
      if (n < (i128) std::numeric_limits<T>::min() || n > (i128) std::numeric_limits<T>::max()) return;
      if (d == -1 && n == (i128) std::numeric_limits<T>::min()) return;
      H::evals++;
      T q = (T) n / dv;
      if ((i128) q != n / d) H::viol("%s: %s / %s = %s, exact %s", nm, S(n).c_str(), S(d).c_str(), S(q).c_str(), S(n / d).c_str());
    };
    for (i128 n : ns) one(n);
    // multiples of the divisor and their neighbours: where the quotient steps
    i128 mx = std::numeric_limits<T>::max(), q = mx / d;
    for (i128 m : {(i128) 1, (i128) 2, (i128) 3, q / 3, q / 2, q - 1, q, (i128) 1 << 31, (i128) 1 << 32, ((i128) 1 << 32) + 1}) for (int e = -2; e <= 2; e++) { i128 n = m * d + e; one(n); if (std::is_signed<T>::value) one(-n); }
  }
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  u64 k = 0; int w = H::thorough ? 40 : 6;
  auto A128 = alphabet(127, w), A64 = alphabet(64, w);
  if (H::on("roots")) {
    auto dense = A128; for (u128 v = 0; v < (H::thorough ? 4000000u : 400000u); v++) dense.push_back(v);
    // squares and cubes around the widest rounding of double: r^k - 1, r^k, r^k + 1 for r near 2^21, 2^26, 2^31, 2^53/k...
    for (int b : {17, 21, 24, 26, 27, 30, 31, 32, 40, 42, 50, 53, 60, 62, 63}) for (int d = -200; d <= 200; d++) { u128 r = ((u128) 1 << b) + d; for (int kk : {2, 3, 4}) { u128 p = 1; bool o = false; for (int i = 0; i < kk; i++) { if (p > (((u128) 1 << 127) - 1) / r) { o = true; break; } p *= r; } if (!o) for (int e = -1; e <= 1; e++) dense.push_back(p + e); } }
    roots<int64_t>("int64_t", dense, k); roots<uint64_t>("uint64_t", A64, k); roots<uint64_t>("uint64_t", dense, k); roots<int128_t>("int128_t", dense, k); roots<uint128_t>("uint128_t", A128, k); roots<int32_t>("int32_t", A64, k); roots<uint32_t>("uint32_t", A64, k);
    H::sample("isqrt and iroot<2..6> of %zu values in every integer type, e.g. %s", dense.size(), SU(A128[A128.size() / 2]).c_str());
  }
  if (H::on("powers")) {
    auto d = A128; for (u128 v = 0; v < 20000; v++) d.push_back(v);
    small<int32_t>("int32_t", d, k); small<uint32_t>("uint32_t", d, k); small<int64_t>("int64_t", d, k); small<uint64_t>("uint64_t", A64, k); small<int128_t>("int128_t", d, k);
    for (int64_t x = 0; x < 60000; x++) { H::evals++; if (isquare(x) != x * x) H::viol("isquare(%lld)", (long long) x); }
    // clamping and mixed-width minimum and maximum
    std::vector<int64_t> cl{INT64_MIN, INT64_MIN + 1, -((int64_t) 1 << 32), -1000, -2, -1, 0, 1, 2, 3, 999, 1000, ((int64_t) 1 << 31) - 1, (int64_t) 1 << 31, (int64_t) 1 << 32, ((int64_t) 1 << 53) + 1, INT64_MAX - 1, INT64_MAX};
    for (int64_t lo : cl) for (int64_t x : cl) for (int64_t hi : cl) {
      if (hi < lo) continue;
      H::evals++; int64_t want = x < lo ? lo : x > hi ? hi : x;
      if (in_between(lo, x, hi) != want) H::viol("in_between(%lld, %lld, %lld) = %lld", (long long) lo, (long long) x, (long long) hi, (long long) in_between(lo, x, hi));
      if (in_between((int128_t) lo, (int128_t) x, (int128_t) hi) != (int128_t) want) H::viol("in_between<int128_t>(%lld, %lld, %lld)", (long long) lo, (long long) x, (long long) hi);
      if (lo >= INT32_MIN && lo <= INT32_MAX && in_between((int) lo, x, hi) != want) H::viol("in_between<int, int64_t, int64_t>(%lld, %lld, %lld)", (long long) lo, (long long) x, (long long) hi);
      int64_t m3 = lo < x ? (lo < hi ? lo : hi) : (x < hi ? x : hi), M3 = lo > x ? (lo > hi ? lo : hi) : (x > hi ? x : hi);
      if (primesum::min(lo, x, hi) != m3 || primesum::max(lo, x, hi) != M3) H::viol("min/max of %lld, %lld, %lld", (long long) lo, (long long) x, (long long) hi);
      for (i128 a : {(i128) lo, (i128) lo * ((i128) 1 << 60), (i128) hi + ((i128) 1 << 70), -((i128) 1 << 100)}) { // wider first operand
        if (a >= 0) { i128 mn = a < x ? a : (i128) x; if (a <= INT64_MAX || x < a) if ((i128) primesum::min((int128_t) a, x) != mn) H::viol("min(int128_t %s, int64_t %lld)", S(a).c_str(), (long long) x); }
        if ((i128) primesum::max((int128_t) a, x) != (a > x ? a : (i128) x)) H::viol("max(int128_t %s, int64_t %lld)", S(a).c_str(), (long long) x);
      }
    }
    std::vector<int64_t> v{0}; for (u64 p : O::primes_in(2, 3000)) v.push_back(p);
    std::vector<uint32_t> v32(v.begin(), v.end());
    for (int64_t x = 0; x <= 2999; x++) { H::evals++; if (pi_bsearch(v, x) != (int64_t) O::pi_small(x) || pi_bsearch(v32, (uint64_t) x) != O::pi_small(x)) H::viol("pi_bsearch(primes, %lld) = %lld", (long long) x, (long long) pi_bsearch(v, x)); }
  }
  if (H::on("div")) {
    std::vector<u128> D; for (size_t i = 0; i < A128.size(); i += H::thorough ? 1 : 3) D.push_back(A128[i]); for (u128 v = 1; v < 300; v++) D.push_back(v);
    for (u128 b : {(u128) INT32_MAX, (u128) UINT32_MAX, (u128) INT64_MAX, (u128) UINT64_MAX}) for (int d = -3; d <= 3; d++) D.push_back(b + d);
    auto N = A128; for (u128 v = 0; v < 300; v++) N.push_back(v); for (u128 a : A64) N.push_back(a);
    fdiv<int64_t, int64_t>("int64_t, int64_t", N, D, k); fdiv<int64_t, int32_t>("int64_t, int32_t", N, D, k); fdiv<int64_t, uint32_t>("int64_t, uint32_t", N, D, k);
    fdiv<uint64_t, uint64_t>("uint64_t, uint64_t", N, D, k); fdiv<uint64_t, uint32_t>("uint64_t, uint32_t", N, D, k); fdiv<uint64_t, int64_t>("uint64_t, int64_t", N, D, k);
    fdiv<int128_t, int128_t>("int128_t, int128_t", N, D, k); fdiv<int128_t, int64_t>("int128_t, int64_t", N, D, k); fdiv<int128_t, int32_t>("int128_t, int32_t", N, D, k); fdiv<int128_t, uint32_t>("int128_t, uint32_t", N, D, k);
    fdiv<uint128_t, int64_t>("uint128_t, int64_t", N, D, k); fdiv<uint128_t, uint32_t>("uint128_t, uint32_t", N, D, k); fdiv<uint128_t, int32_t>("uint128_t, int32_t", N, D, k); fdiv<uint128_t, uint64_t>("uint128_t, uint64_t", N, D, k);
    cdiv<int64_t, int64_t>("int64_t", N, D, k); cdiv<int64_t, int>("int64_t, int", N, D, k); cdiv<uint64_t, uint64_t>("uint64_t", N, D, k); cdiv<int128_t, int128_t>("int128_t", N, D, k); cdiv<uint64_t, int>("uint64_t, int", N, D, k);
    H::sample("fast_div and ceil_div: %zu dividends x %zu divisors in every width", N.size(), D.size());
  }
  if (H::on("recip")) { // division by precomputed reciprocals
    std::set<i128> ds, ns;
    for (i128 v = 1; v < (H::thorough ? 20000 : 3000); v++) ds.insert(v);
    for (u64 p : O::primes_in(3000, H::thorough ? 200000 : 20000)) ds.insert((i128) p);
    for (int b = 12; b < 64; b++) for (int d = -3; d <= 3; d++) ds.insert(((i128) 1 << b) + d), ds.insert(((i128) 3 << (b - 1)) + d);
    for (i128 t = 10; t < ((i128) 1 << 64); t *= 10) for (int d = -1; d <= 1; d++) ds.insert(t + d);
    for (int d = 0; d < 6; d++) ds.insert(((i128) 1 << 64) - 1 - d);
    for (u64 p = 1u << 20; p < (1ull << 62); p = p * 5 / 3) { ds.insert(O::next_prime(p)); ds.insert(O::prev_prime(p)); }
    for (size_t i = 0; i < A64.size(); i += 2) ns.insert((i128) A64[i]);
    for (int v = 0; v < 40; v++) ns.insert(v);
    std::vector<i128> D(ds.begin(), ds.end()), N(ns.begin(), ns.end()), DU(D), DS, NS(N);
    DU.erase(std::remove(DU.begin(), DU.end(), (i128) 1), DU.end()); // the branchfree form documents d != 1
    for (i128 d : D) { DS.push_back(d); DS.push_back(-d); }
    DS.push_back(INT64_MIN); DS.push_back(INT32_MIN);
    for (size_t i = 0; i < N.size(); i += 3) NS.push_back(-N[i]); NS.push_back(INT64_MIN); NS.push_back(INT32_MIN);
    recip<uint64_t, libdivide::branchfree_divider<uint64_t>>("branchfree uint64_t", DU, N, k);
    recip<uint64_t, libdivide::divider<uint64_t>>("branching uint64_t", D, N, k);
    recip<uint32_t, libdivide::branchfree_divider<uint32_t>>("branchfree uint32_t", DU, N, k);
    recip<uint32_t, libdivide::divider<uint32_t>>("branching uint32_t", D, N, k);
    std::vector<i128> DSF; for (i128 d : DS) if (d != 1 && d != -1) DSF.push_back(d);
    recip<int64_t, libdivide::branchfree_divider<int64_t>>("branchfree int64_t", DSF, NS, k);
    recip<int64_t, libdivide::divider<int64_t>>("branching int64_t", DS, NS, k);
    recip<int32_t, libdivide::branchfree_divider<int32_t>>("branchfree int32_t", DSF, NS, k);
    recip<int32_t, libdivide::divider<int32_t>>("branching int32_t", DS, NS, k);
    H::sample("reciprocal division: %zu divisors x %zu dividends plus neighbours of multiples of each divisor", D.size(), N.size());
  }
  return H::done();
}
