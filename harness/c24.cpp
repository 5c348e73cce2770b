// C24 (summing code): built with the address and undefined-behaviour sanitizers, the project's own assertions,
// checked container accesses and patterned fresh storage; every case is one computation that must finish without
// a report (a report aborts the case, which check.py turns into a violation) and with the exact value.
#include "cfgs.h"
#include <calculator.hpp>
#include <BitSieve.hpp>
#include <PiTable.hpp>
#include <generate.hpp>
#include <cstring>
extern "C" int ps_app_main(int, char**);
typedef unsigned long long ull;
static void eq(const char* what, uint64_t x, uint64_t y, int t, const int256_t& got, u128 want) { H::evals++; if (want) H::distinct++; if (!same(got, (i128) want)) H::viol("%s(%llu, %llu) with %d threads = %s instead of %s", what, (ull) x, (ull) y, t, str(got).c_str(), H::s128((i128) want).c_str()); }
static void parts(uint64_t x, uint64_t y, int t, bool want) {
  int64_t z = x / y, c = L::c_of(y);
  L::Split s; u128 s1 = 0, p2 = 0; if (want) { s = L::naive(x, y); s1 = L::S1(x, y, c, O::primes_in(2, y)).s; p2 = L::P2(x, y); }
  auto run = [&](const char* n, const int256_t& v, u128 w) { if (want) eq(n, x, y, t, v, w); else H::evals++; };
  H::begin("P2(%llu, %llu) threads %d", (ull) x, (ull) y, t); run("P2", P2((int128_t) x, y, t), p2);
  H::begin("S1(%llu, %llu) threads %d", (ull) x, (ull) y, t); run("S1", S1((int128_t) x, y, c, t), s1);
  H::begin("S2_trivial(%llu, %llu) threads %d", (ull) x, (ull) y, t); run("S2_trivial", S2_trivial((int128_t) x, y, z, c, t), s.trivial);
  H::begin("S2_easy(%llu, %llu) threads %d", (ull) x, (ull) y, t); run("S2_easy", S2_easy((int128_t) x, y, z, c, t), s.easy);
  H::begin("S2_hard(%llu, %llu) threads %d", (ull) x, (ull) y, t); run("S2_hard", S2_hard((int128_t) x, y, z, c, t), s.hard);
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8); mc::set_clock_alphabet({1000});
  uint64_t k = 0;
  if (H::on("algos")) {
    uint64_t N = H::thorough ? 12000 : 2500;
    for (uint64_t x = 0; x < N; x++) {
      if (!H::mine(x)) continue;
      u128 w = O::prime_sum_small(x);
      for (auto& a : algos()) for (int t : {1, 3}) { H::begin("%s(%llu) threads %d", a.name, (ull) x, t); check_algo(a, x, w, t); }
      for (double al : {1.0, 1.5, 2.7, 30.0, 1e9, -5.0}) { set_alpha(al); H::begin("pi(%llu) alpha %g", (ull) x, al); eq("pi", x, 0, 2, pi((int128_t) x, 2), w); H::begin("pi_lmo_parallel1(%llu) alpha %g", (ull) x, al); eq("pi_lmo_parallel1", x, 0, 2, pi_lmo_parallel1((int128_t) x, 2), w); }
      set_alpha(-1);
    }
    for (i128 x : {(i128) -1, -((i128) 1 << 62), -((i128) 1 << 63), -((i128) 1 << 100)}) { if (!H::mine(k++)) continue; H::begin("pi of a negative number"); H::evals++; if (!same(pi((int128_t) x, 2), 0)) H::viol("pi(%s) is not 0", H::s128(x).c_str()); }
    H::sample("ten algorithms with 1 and 3 threads and 6 tuning factors for every x < %llu", (ull) N);
    std::vector<uint64_t> xs = O::structured(H::thorough ? 3000000000ull : 20000000ull, 1);
    for (size_t i = 0; i < xs.size(); i++) {
      if (xs[i] < N || !H::mine(k++)) continue;
      if (!H::time_left()) break;
      u128 w = O::prime_sum(xs[i]); const auto& A = algos();
      for (size_t j = 1; j < A.size(); j++) { if (!H::thorough && xs[i] > 300000 && (i + j) % 5) continue; H::begin("%s(%llu)", A[j].name, (ull) xs[i]); check_algo(A[j], xs[i], w, 1 + (int) (i + j) % 4); }
    }
    for (uint64_t x : {10000000019ull, 100000000003ull, 1000000000039ull}) { if (!H::mine(k++)) continue; if (x > 200000000000ull && !H::thorough) continue; H::begin("pi(%llu)", (ull) x); eq("pi", x, 0, 4, pi((int128_t) x, 4), O::prime_sum(x)); H::begin("pi_lmo_parallel1(%llu)", (ull) x); eq("pi_lmo_parallel1", x, 0, 4, pi_lmo_parallel1((int128_t) x, 4), O::prime_sum(x)); }
    H::sample("algorithms at %zu structural x and at 10^10 and 10^11", xs.size());
  }
  if (H::on("parts")) {
    uint64_t N = H::thorough ? 3000 : 900;
    for (uint64_t x = 1; x < N; x++) { if (!H::mine(k++)) continue; for (uint64_t y = ymin(x); y <= (uint64_t) ymax(x); y++) { parts(x, y, 1 + (x + y) % 3, true); int64_t z = x / y, c = L::c_of(y); S1((int64_t) x, y, c, 2); P2((int64_t) x, y, 1); S2_hard((int64_t) x, y, z, c, 1); S2_easy((int64_t) x, y, z, c, 2); } }
    for (uint64_t x : {1000000ull, 4194304ull, 9999999ull, 30030000ull}) { uint64_t a = ymin(x), b = ymax(x); for (uint64_t y : {a, a + 1, (a + b) / 2, b}) if (H::mine(k++)) parts(x, y, 1 + k % 3, true); }
    for (uint64_t x : {1000000007ull, 20000000011ull, 300000000007ull}) { uint64_t a = ymin(x), b = ymax(x); for (uint64_t y : {a, a * 3, b / 2, b}) if (H::mine(k++) && (y < 200000 || H::thorough)) parts(x, y, 1 + k % 4, false); }
    // wide x with a few prime pairs only
    for (int b : {63, 64, 66}) for (uint64_t d : {300ull, 4000ull}) { if (!H::mine(k++)) continue; if (!H::thorough && (b == 66 || d > 300)) continue; u128 x = ((u128) 1 << b) - 1; uint64_t r = O::isqrt(x); H::begin("P2(2^%d - 1, %llu)", b, (ull) (r - d)); H::evals++; if (!same(P2((int128_t) x, r - d, 2), (i128) L::P2(x, r - d))) H::viol("P2(2^%d - 1, %llu)", b, (ull) (r - d)); }
    H::sample("five components for every x < %llu and every y, at structural x to 3*10^11 and at 2^63, 2^64", (ull) N);
  }
  if (H::on("teams")) { // the parallel computations of C03, base schedulers and clocks
    auto V = cfgs();
    for (auto& C : V) for (int t : {1, 2, 3, 8}) {
      if (C.weight > (H::thorough ? 9 : 5) || (!H::thorough && C.weight > 3 && t != 3)) continue;
      if (!H::mine(k++)) continue;
      if (!H::time_left()) break;
      mc::set_base((mc::Base) (k % 3)); int64_t inc = k % 2 ? 1000 : 61000000; mc::set_clock_alphabet({inc});
      H::begin("%s with %d threads, clock steps of %lld us", C.name.c_str(), t, (long long) inc); int256_t r = C.f(t); H::evals++; H::distinct++;
      if (C.want && C.weight < 4 && !same(r, (i128) C.want())) H::viol("%s with %d threads", C.name.c_str(), t);
    }
    mc::set_base(mc::CONTINUE); mc::set_clock_alphabet({1000});
    for (int prec = 0; prec <= 5; prec++) for (uint64_t x : {0ull, 1ull, 2ull, 10ull, 1000ull, 1000000ull, 1000000000ull}) { if (!H::mine(k++)) continue; H::begin("pi(%llu) with status precision %d", (ull) x, prec); set_print(true); set_status_precision(prec); int256_t r; H::capture([&] { r = pi((int128_t) x, 3); pi_lmo_parallel1((int128_t) x, 3); }); set_print(false); set_status_precision(-1); eq("pi", x, 0, 3, r, O::prime_sum(x)); }
    H::sample("the parallel computations of C03 with 1, 2, 3 and 8 threads under fast and slow clocks; status output at 6 precisions");
  }
  if (H::on("phi")) {
    int64_t N = H::thorough ? 3000 : 600;
    for (int64_t x = 0; x <= N; x++) { if (!H::mine(k++)) continue; for (int64_t a = 0; a <= (H::thorough ? 330 : 70); a++) { H::begin("phi(%lld, %lld)", (long long) x, (long long) a); H::evals += 3; phi(x, a, 1 + a % 3); phi_sum(x, a); phi_sum((int128_t) x, a); } if (pi_legendre(x, 2) != (int64_t) O::pi_small(x)) H::viol("pi_legendre(%lld)", (long long) x); }
    for (int64_t n = 1; n <= 9; n++) { H::evals++; H::begin("nth_prime(%lld)", (long long) n); if (nth_prime(n) != (int64_t) O::small_primes()[n - 1]) H::viol("nth_prime(%lld)", (long long) n); }
    for (uint64_t x : {65535ull, 65536ull, 1000000ull, 99999999ull, 20000000001ull}) for (int64_t a : {0, 3, 8, 9, 50, 168, 500}) { if (!H::mine(k++)) continue; H::begin("phi(%llu, %lld)", (ull) x, (long long) a); H::evals += 2; phi(x, a, 3); if (x <= 1000000) phi_sum((int64_t) x, a); }
    // many primes: beyond the primes whose squares fit 31 bits
    for (uint64_t x : {2200000000ull, 4000000000ull, 4300000000ull, 20000000001ull}) for (int64_t a : {4700, 4792, 4793, 5000, 6542, 6543, 10000, 20000}) { if (!H::mine(k++)) continue; H::begin("phi(%llu, %lld)", (ull) x, (long long) a); H::evals++; phi(x, a, 1 + k % 3); }
    H::sample("phi, phi_sum and pi_legendre for every x <= %lld and every a", (long long) N);
  }
  if (H::on("tables")) {
    int N = H::thorough ? 4000 : 1200;
    for (int m = 0; m <= N; m++) {
      if (!H::mine(k++)) continue;
      H::begin("tables to %d", m); H::evals += 10;
      PiTable t(m); for (int n = 0; n <= m; n++) if (t[n] != (int64_t) O::pi_small(n)) H::viol("PiTable(%d)[%d]", m, n);
      generate_pi(m); generate_moebius(m); generate_lpf(m); generate_primes<int32_t>(m); generate_primes<int64_t>(m); generate_prime_sums<int64_t>(m); generate_prime_sums<int128_t>(m); generate_n_primes(m);
      for (int th : {1, 3}) { FactorTable<uint16_t> f(m, th); FactorTable<uint32_t> g(m, th); for (int64_t n = 11; n <= m; n++) if (n % 2 && n % 3 && n % 5 && n % 7) { if (f.lpf(f.get_index(n)) != (g.lpf(g.get_index(n)) == UINT32_MAX ? 65535 : g.lpf(g.get_index(n)))) H::viol("FactorTable(%d) of %lld", m, (long long) n); } }
    }
    std::vector<int64_t> pr{0}; for (auto p : O::primes_in(2, 400)) pr.push_back(p);
    for (int size = 1; size <= (H::thorough ? 1300 : 400); size++) {
      if (!H::mine(k++)) continue;
      for (uint64_t low : {(uint64_t) 1, 1 + (uint64_t) size * 3, 1 + ((uint64_t) 1 << 40)}) for (int c : {1, 4, 6, 9}) {
        H::begin("BitSieve(%d) low %llu c %d", size, (ull) low, c); H::evals++;
        BitSieve s(size); s.pre_sieve(c, low); int64_t n = size;
        for (int64_t i = 0; i < n; i += 2 + n / 40 * 2) { s.sum(low, i, n - 1); s.sum(low, 0, i); s.unset(i); if (s[i]) H::viol("unset"); s.set(i); }
      }
    }
    H::sample("every table of size <= %d; bit sieves of every size with counts and sums", N);
  }
  if (H::on("text")) {
    static const char* T[] = {"0", "1", "9", "12345678901234567890123456789012345678", "170141183460469231731687303715884105727", "0x", "0xf", "0x7fffffffffffffffffffffffffffffff", "+", "-", "*", "/", "%", "^", "(", ")", "<<", ">>", "e", "1e30", " ", "|", "&", "~", "127", "a"};
    const int n = sizeof T / sizeof *T;
    for (int len = 0; len <= (H::thorough ? 4 : 3); len++) { uint64_t tot = 1; for (int i = 0; i < len; i++) tot *= n; for (uint64_t q = 0; q < tot; q++) { if (!H::mine(k++)) continue; std::string s; uint64_t r = q; for (int i = 0; i < len; i++) { s += T[r % n]; r /= n; } H::begin("to_int128(\"%s\")", s.c_str()); H::evals++; H::distinct++; try { int128_t v = to_int128(s); std::ostringstream o; o << v; } catch (std::exception&) {} try { calculator::eval<int64_t>(s); } catch (std::exception&) {} try { calculator::eval<int>(s); } catch (std::exception&) {} try { calculator::eval<uint64_t>(s); } catch (std::exception&) {} } }
    H::sample("every sequence of up to %d of %d tokens through the evaluator at four widths", H::thorough ? 4 : 3, n);
    static const char* A[] = {"10", "1e5", "-1", "0", "--lmo1", "--lmo5", "-l", "-d", "--P2", "--S1", "--S2_easy", "--S2_hard", "--S2_trivial", "-s", "-s5", "--status=99999999999", "--time", "-t3", "--threads=1e9", "-t0-9", "--alpha=1e300", "--alpha=nan", "--alpha=-inf", "-a", "--number=7", "--number=1e36", "2^127", "-h", "-v", "", "-", "--", "--=", "-=", "=", "--x=1"};
    const int m = sizeof A / sizeof *A;
    for (int i = 0; i < m; i++) for (int j = 0; j <= m; j++) {
      if (!H::mine(k++)) continue;
      std::vector<const char*> v{"primesum", A[i]}; if (j < m) v.push_back(A[j]);
      std::string cmd; for (size_t q = 1; q < v.size(); q++) cmd += std::string(" '") + v[q] + "'";
      H::begin("primesum%s", cmd.c_str()); H::evals++;
      auto P = H::run_forked([&] { std::vector<char*> a; for (auto p : v) a.push_back((char*) p); a.push_back(nullptr); return ps_app_main((int) v.size(), a.data()); }, 2);
      if (!P.timeout && (P.sig || P.code == 66)) H::viol("primesum%s ends with signal %d: %s", cmd.c_str(), P.sig, P.err.substr(0, 400).c_str());
    }
    H::sample("every list of one or two of %d arguments through main()", m);
  }
  return H::done();
}
