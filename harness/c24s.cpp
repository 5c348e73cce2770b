// C24 (sieve library): see c24.cpp.
#include "sieveo.h"
#include "mcrt.h"
#include <primesieve.h>
#include <primesieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <primesieve/calculator.hpp>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <iostream>
typedef uint64_t u64;
typedef unsigned long long ull;
using namespace primesieve;
extern "C" int psv_app_main(int, char**);
static const u64 M = ~0ull;
static const int ALL = COUNT_PRIMES | COUNT_TWINS | COUNT_TRIPLETS | COUNT_QUADRUPLETS | COUNT_QUINTUPLETS | COUNT_SEXTUPLETS;
static void count(const SO::Tab& t, u64 a, u64 b, int kb, int th) {
  H::begin("counting [%llu, %llu], %d KiB, %d threads", (ull) a, (ull) b, kb, th); H::evals++; H::distinct++;
  ParallelSieve ps; ps.setSieveSize(kb); ps.setNumThreads(th); ps.setStart(a); ps.setStop(b); ps.setFlags(ALL); ps.sieve();
  for (int k = 0; k < 6; k++) if (ps.getCount(k) != t.count(k, a, b)) H::viol("%llu %s in [%llu, %llu], %d KiB, %d threads", (ull) ps.getCount(k), SO::NAME[k], (ull) a, (ull) b, kb, th);
}
template <class T> static void store(const SO::Tab& t, u64 a, u64 b, int ct, u64 n) {
  H::begin("storing [%llu, %llu] as type %d", (ull) a, (ull) b, ct); H::evals += 4;
  std::vector<T> v; try { generate_primes(a, b, &v); } catch (std::exception&) {}
  std::vector<T> w; try { generate_n_primes(n, a, &w); if (w.size() != n) H::viol("generate_n_primes(%llu, %llu)", (ull) n, (ull) a); } catch (std::exception&) {}
  size_t s; void* p = primesieve_generate_primes(a, b, &s, ct); if (p) { volatile T last = 0; for (size_t i = 0; i < s; i++) last = ((T*) p)[i]; (void) last; } primesieve_free(p);
  p = primesieve_generate_n_primes(n, a, ct); if (p) { volatile T last = 0; for (size_t i = 0; i < n; i++) last = ((T*) p)[i]; (void) last; } primesieve_free(p);
  (void) t;
}
template <class I> static void walk(u64 s, u64 hint, int depth, int ops) {
  // all sequences of next, prev, 300 x next, 300 x prev, skipto
  u64 tot = 1; for (int i = 0; i < depth; i++) tot *= ops;
  for (u64 q = 0; q < tot; q++) {
    H::begin("iterator from %llu hint %llu sequence %llu", (ull) s, (ull) hint, (ull) q); H::evals++; H::traces++;
    I it(s, hint); u64 r = q; u64 at = s;
    for (int d = 0; d < depth; d++, r /= ops) switch (ops == 4 && r % 4 > 1 ? r % 4 + 2 : r % ops) {
      case 0: at = it.next(); break; case 1: at = it.prev(); break;
      case 2: for (int i = 0; i < 300; i++) at = it.next(); break; case 3: for (int i = 0; i < 300; i++) at = it.prev(); break;
      case 4: it.skip(at / 2, hint); break; case 5: it.move(); break;
    }
  }
}
struct Cpp { iterator it; Cpp(u64 s, u64 h) : it(s, h) {} u64 next() { return it.next_prime(); } u64 prev() { return it.prev_prime(); } void skip(u64 s, u64 h) { it.skipto(s, h); } void move() { iterator b(std::move(it)); it = iterator(7, 20); it = std::move(b); } };
struct C { primesieve_iterator it; C(u64 s, u64 h) { primesieve_init(&it); primesieve_skipto(&it, s, h); } ~C() { primesieve_free_iterator(&it); } u64 next() { return primesieve_next_prime(&it); } u64 prev() { return primesieve_prev_prime(&it); } void skip(u64 s, u64 h) { primesieve_skipto(&it, s, h); } void move() { primesieve_free_iterator(&it); primesieve_init(&it); primesieve_skipto(&it, 100, 50); } };
static void (*PR[6])(u64, u64) = {print_primes, print_twins, print_triplets, print_quadruplets, print_quintuplets, print_sextuplets};
static void (*PC[6])(u64, u64) = {primesieve_print_primes, primesieve_print_twins, primesieve_print_triplets, primesieve_print_quadruplets, primesieve_print_quintuplets, primesieve_print_sextuplets};
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  u64 k = 0;
  if (H::on("count")) {
    u64 N = H::thorough ? 400 : 90; SO::Tab t(0, 4000);
    for (u64 a = 0; a <= N; a++) { if (!H::mine(k++)) continue; for (u64 b = a > 2 ? a - 2 : 0; b <= N; b++) { if (b >= a) count(t, a, b, 8, 1); int f = (int) ((a + b) % 6); H::begin("printing [%llu, %llu]", (ull) a, (ull) b); H::capture([&] { PR[f](a, b); PC[f](a, b); std::cout.flush(); }); H::evals += 2; } for (u64 b = 200; b < 3000; b += 97) count(t, a, b, 8, 2 + (int) (b % 5)); }
    for (u64 c : {8 * 1024 * 30ull, 16 * 1024 * 30ull, 1000000ull, 16777216ull, 1000000007ull, 1000000000000ull, 1000000000000000ull}) for (int kb : {8, 16, 64}) {
      if (!H::mine(k++)) continue; SO::Tab w(c - 2000, c + 2100000);
      for (int da : {-1000, -31, -7, -1, 0, 1, 30}) for (u64 len : {0ull, 1ull, 29ull, 30ull, 500ull, 245760ull, 2000000ull}) if (len < 1000000 || !da) count(w, c + da, c + da + len, kb, 1 + (len > 1000 ? 2 : 0));
    }
    // last segments that fill the sieve array, lengths one by one
    for (u64 c : {20ull, 1000000020ull, 1000000000020ull}) for (int kb : {8, 16}) for (int m : {1, 2}) {
      u64 len = kb * 30720ull * m; SO::Tab w(c, c + len + 400);
      for (u64 d = len - 300; d < len + 300; d++) { if (!H::mine(k++)) continue; count(w, c, c + d, kb, 1); }
    }
    struct S { u64 a, b; int kb; }; // large sieving primes: all three kinds of sieves
    for (auto& s : std::vector<S>{{10000000000000000ull, 10000000000000000ull + 3000000, 8}, {1000000000000000000ull, 1000000000000000000ull + 1000000, 32}, {M - 600000, M, 64}, {M - 10, M, 8}, {(u64) 4294967291 * 4294967291 - 1000, (u64) 4294967291 * 4294967291 + 500000, 16}}) { if (!H::mine(k++) || (s.a > 15000000000000000000ull && !H::thorough)) continue; SO::Tab w(s.a, s.b == M ? M : s.b + 40); count(w, s.a, s.b, s.kb, 1); }
    H::sample("all six counts of every interval inside [0, %llu], parallel ones to 3000, windows around segment ends, 10^15, 10^18, 2^64 - 1", (ull) N);
  }
  if (H::on("store")) {
    SO::Tab t(0, 100);
    u64 N = H::thorough ? 200 : 60;
    for (u64 a = 0; a <= N; a++) { if (!H::mine(k++)) continue; for (u64 b = a > 1 ? a - 2 : 0; b <= N + 80; b += 1 + (b > N) * 19) { u64 n = b % 23; store<u64>(t, a, b, UINT64_PRIMES, n); store<int16_t>(t, a, b, INT16_PRIMES, n); if (b % 7 == 0) { store<uint16_t>(t, a, b, UINT16_PRIMES, n); store<int>(t, a, b, INT_PRIMES, n); store<long>(t, a, b, LONG_PRIMES, n); } } }
    for (u64 c : {32749ull, 65521ull, 2147483647ull, 4294967291ull, 1000000000000ull, (ull) M - 1000}) for (int d : {-50, -1, 0, 1}) { if (!H::mine(k++)) continue; if (c == M - 1000) { if (d == 0 && H::thorough) store<u64>(t, c, M, UINT64_PRIMES, 20); if (d == 1 && H::thorough) store<int64_t>(t, c, M, INT64_PRIMES, 20); continue; } u64 e = c > M - 2000 ? M : c + 900; store<int16_t>(t, c + d, e, INT16_PRIMES, 20); store<uint16_t>(t, c + d, e, UINT16_PRIMES, 20); store<int32_t>(t, c + d, e, INT32_PRIMES, 20); store<uint32_t>(t, c + d, e, UINT32_PRIMES, 20); store<int64_t>(t, c + d, e, INT64_PRIMES, 20); store<u64>(t, c + d, e, UINT64_PRIMES, 20); }
    for (u64 n : {0ull, 1ull, 1000ull, 100000ull, 1000000ull}) { if (!H::mine(k++)) continue; store<u64>(t, n % 7, n * 14, ULONGLONG_PRIMES, n); store<int>(t, n % 5, n * 14, INT_PRIMES, n); }
    // runs of primes that stand closer together than the average: more of them than the space reserved by the usual estimate
    auto& P = O::small_primes();
    for (size_t n = 14; n < 40; n++) { if (!H::mine(k++)) continue;
      for (size_t i = 0; i + n <= P.size() && P[i + n - 1] < (H::thorough ? 1000000u : 120000u); i++) {
        u64 a = P[i], b = P[i + n - 1]; double r = (double) (b - a + 1) / (std::log((double) b) - 1.1) + 5;
        if (r < n + 1) { store<u64>(t, a, b, UINT64_PRIMES, n); if (b < 32767) store<int16_t>(t, a, b, INT16_PRIMES, n); else store<int>(t, a, b, INT_PRIMES, n); } } }
    for (int type : {-1, 14, 15, 100}) { size_t s; errno = 0; if (primesieve_generate_primes(0, 100, &s, type) || primesieve_generate_n_primes(10, 0, type)) H::viol("unknown type %d", type); H::evals++; }
    H::sample("every interval inside [0, %llu] and n < 23 in five element types, all type limits, 10^6 primes", (ull) N);
  }
  if (H::on("iter")) {
    for (u64 s : {0ull, 1ull, 2ull, 3ull, 100ull, 719ull, 721ull, 5000ull, 999983ull, 1000000ull, 4294967296ull, 1000000000000ull}) for (u64 h : {M, (u64) 0, s, s + 1000}) for (int b = 0; b < 2; b++) { if (!H::mine(k++)) continue; int depth = (s < 10000000 ? 3 : 2) + (H::thorough ? 1 : 0); if (b) walk<C>(s, h, depth, 6); else walk<Cpp>(s, h, depth, 6); if (s < 1000) { if (b) walk<C>(s, h, depth + 2, 4); else walk<Cpp>(s, h, depth + 2, 4); } }
    for (u64 s : {M, M - 1, M - 58, M - 59, M - 60, (u64) 30000000000000000}) for (int b = 0; b < 2; b++) { if (!H::mine(k++)) continue; if (!H::thorough && s > M - 61) continue; H::begin("iterator at %llu", (ull) s); H::evals++; if (b) { C it(s, M); it.prev(); it.next(); it.next(); } else { Cpp it(s, M); try { it.prev(); if (H::thorough) { it.next(); it.next(); } } catch (std::exception&) {} } }
    H::sample("all sequences of 2 or 3 of 6 iterator operations (5 of 4 at small starts) from 12 starts with 4 stop hints in both bindings");
  }
  if (H::on("nth")) {
    for (u64 s = 0; s <= (H::thorough ? 300u : 60u); s++) { if (!H::mine(k++)) continue; for (int64_t n = -40; n <= 40; n++) { H::begin("nth_prime(%lld, %llu)", (long long) n, (ull) s); H::evals++; try { nth_prime(n, s); } catch (std::exception&) {} errno = 0; primesieve_nth_prime(n, s); } }
    struct Q { int64_t n; u64 s; }; for (auto& q : std::vector<Q>{{100000, 0}, {1000000, 0}, {-100000, 2000000}, {-78498, 1000000}, {1000, 1000000000000ull}, {-1000, 1000000000000ull}, {INT64_MAX, 0}, {INT64_MIN, 100}, {INT64_MIN, 0}, {-500000000000000000, 1000}, {INT64_MIN + 1, 1000000}, {-1, 0}, {1, M - 59}}) { if (!H::mine(k++)) continue; if (q.n == INT64_MAX || (q.n == 1 && q.s == M - 59 && !H::thorough)) continue; H::begin("nth_prime(%lld, %llu)", (long long) q.n, (ull) q.s); H::evals++; try { nth_prime(q.n, q.s); } catch (std::exception&) {} }
    H::sample("every |n| <= 40 from every start <= 60, and 10 structural searches");
  }
  if (H::on("text")) {
    static const char* A[] = {"100", "1000", "1e6", "2^64-1", "-c", "-c1", "-c123456", "-c7", "-c0", "-p", "-p2", "-p6", "-p7", "-n", "-d100", "-d", "-s8", "-s99999", "-s", "-t2", "-t999999999999", "-q", "--time", "--no-status", "-h", "-v", "", "-", "--", "-=3", "--cpu-info", "-x", "7/0", "(", "1<<3", "0x", "-10"};
    const int m = sizeof A / sizeof *A;
    for (int i = 0; i < m; i++) for (int j = 0; j <= m; j++) for (int l = m; l <= m; l++) {
      if (!H::mine(k++)) continue;
      if (std::string(A[i]) == "2^64-1" || (j < m && std::string(A[j]) == "2^64-1")) continue;
      std::vector<const char*> v{"primesieve", A[i]}; if (j < m) v.push_back(A[j]);
      std::string cmd; for (size_t q = 1; q < v.size(); q++) cmd += std::string(" '") + v[q] + "'";
      H::begin("primesieve%s", cmd.c_str()); H::evals++;
      auto P = H::run_forked([&] { std::vector<char*> a; for (auto p : v) a.push_back((char*) p); a.push_back(nullptr); return psv_app_main((int) v.size(), a.data()); }, 2);
      if (!P.timeout && (P.sig || P.code == 66)) H::viol("primesieve%s ends with signal %d: %s", cmd.c_str(), P.sig, P.err.substr(0, 400).c_str());
    }
    H::sample("every list of one or two of %d arguments through main()", m);
  }
  return H::done();
}
