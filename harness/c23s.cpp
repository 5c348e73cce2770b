// C23 (sieve library): every allocation failing, in every function of both interfaces, iterators included.
#include "common.h"
#include "fault.h"
#include <primesieve.h>
#include <primesieve.hpp>
#include <algorithm>
#include <cerrno>
typedef uint64_t u64;
typedef unsigned long long ull;
extern "C" int psv_app_main(int, char**);
static std::string num(u64 v) { return std::to_string(v); }
template <class T> static F::Op value(std::function<T()> f, T want, std::function<std::string(const T&)> show) {
  return [=]() -> std::string { T r; try { r = f(); mc::fault_pause(); } catch (const std::exception& e) { mc::fault_pause(); return std::string("!") + e.what(); } return r == want ? "" : "returns " + show(r) + " instead of " + show(want); };
}
static F::Op cvalue(std::function<u64()> f, u64 want) { // C: PRIMESIEVE_ERROR and errno
  return [=]() -> std::string { errno = 0; u64 r; try { r = f(); } catch (const std::exception& e) { mc::fault_pause(); return "an exception leaves the C interface"; } mc::fault_pause(); if (r == PRIMESIEVE_ERROR) return errno == EDOM ? "!EDOM" : "returns PRIMESIEVE_ERROR without setting errno"; return r == want ? "" : "returns " + num(r) + " instead of " + num(want); };
}
static F::Op carray(std::function<u64*(size_t*)> f, std::vector<u64> want, bool sized) {
  return [=]() -> std::string { size_t n = 77; errno = 0; u64* p; try { p = f(&n); } catch (const std::exception& e) { mc::fault_pause(); return "an exception leaves the C interface"; } mc::fault_pause(); if (!p) return errno != EDOM ? "returns NULL without setting errno" : sized && n ? "returns NULL and size " + num(n) : "!EDOM";
    if (sized && n != want.size()) return "stores " + num(n) + " primes instead of " + num(want.size());
    for (size_t i = 0; i < want.size(); i++) if (p[i] != want[i]) return "entry " + num(i) + " is " + num(p[i]);
    primesieve_free(p); return ""; };
}
// a walk by an iterator: after a failure the object is repositioned and must walk exactly again
static std::string walk_cpp(primesieve::iterator& it, const std::vector<u64>& P, u64 start, int fwd, int back) {
  size_t i = std::upper_bound(P.begin(), P.end(), start) - P.begin();
  for (int k = 0; k < fwd; k++, i++) { u64 v = it.next_prime(); if (v != P[i]) return "next_prime returns " + num(v) + " instead of " + num(P[i]); }
  for (int k = 0; k < back; k++) { i--; if (k == 0 && fwd) i--; u64 w = (int64_t) i >= 0 ? P[i] : 0; u64 v = it.prev_prime(); if (v != w) return "prev_prime returns " + num(v) + " instead of " + num(w); }
  return "";
}
static F::Op iter_cpp(const std::vector<u64>& P, u64 start, u64 hint, int fwd, int back) {
  return [=, &P]() -> std::string {
    std::string out; bool failed = false;
    try { primesieve::iterator it(start, hint); try { out = walk_cpp(it, P, start, fwd, back); } catch (const std::exception& e) { failed = true; mc::fault_pause(); }
      if (failed) { it.skipto(start, hint); out = walk_cpp(it, P, start, fwd, back); if (!out.empty()) out = "repositioned after the failure: " + out; } }
    catch (const std::exception& e) { return mc::fault_pause(), failed ? std::string("repositioned after the failure: ") + e.what() : std::string("!") + e.what(); }
    return !out.empty() ? out : failed ? "!repositioned" : ""; };
}
static bool c_failed; static void walk_c_fail() { c_failed = true; }
static std::string walk_c(primesieve_iterator& it, const std::vector<u64>& P, u64 start, int fwd, int back) {
  size_t i = std::upper_bound(P.begin(), P.end(), start) - P.begin();
  for (int k = 0; k < fwd; k++, i++) { errno = 0; u64 v = primesieve_next_prime(&it); if (v == PRIMESIEVE_ERROR) { if (!it.is_error || errno != EDOM) return "primesieve_next_prime returns PRIMESIEVE_ERROR without setting is_error and errno"; mc::fault_pause(); walk_c_fail(); return ""; } if (v != P[i]) return "primesieve_next_prime returns " + num(v) + " instead of " + num(P[i]); }
  for (int k = 0; k < back; k++) { i--; if (k == 0 && fwd) i--; u64 w = (int64_t) i >= 0 ? P[i] : 0; errno = 0; u64 v = primesieve_prev_prime(&it); if (v == PRIMESIEVE_ERROR) { if (!it.is_error || errno != EDOM) return "primesieve_prev_prime returns PRIMESIEVE_ERROR without setting is_error and errno"; mc::fault_pause(); walk_c_fail(); return ""; } if (v != w) return "primesieve_prev_prime returns " + num(v) + " instead of " + num(w); }
  return "";
}
static F::Op iter_c(const std::vector<u64>& P, u64 start, u64 hint, int fwd, int back) {
  return [=, &P]() -> std::string {
    primesieve_iterator it; c_failed = false; bool first = false;
    try { primesieve_init(&it); } catch (const std::exception& e) { mc::fault_pause(); return std::string("!init: ") + e.what(); }
    primesieve_skipto(&it, start, hint);
    std::string out; try { out = walk_c(it, P, start, fwd, back); } catch (const std::exception&) { mc::fault_pause(); return "an exception leaves the C interface"; } mc::fault_pause();
    if (c_failed && out.empty()) { first = true; mc::fault_pause(); c_failed = false; primesieve_skipto(&it, start, hint); out = walk_c(it, P, start, fwd, back); if (c_failed) out = "fails again"; if (!out.empty()) out = "repositioned after the failure: " + out; }
    primesieve_free_iterator(&it);
    return !out.empty() ? out : first ? "!EDOM" : ""; };
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  F::Stat st;
  using namespace primesieve;
  if (H::on("count")) {
    struct I { u64 a, b; int th; }; I is[] = {{0, 1000, 1}, {100, 3000000, 1}, {100, 60000000, 4}, {1000000000000ull, 1000030000000ull, 3}, {1000000000000000000ull, 1000000000000100000ull, 1}};
    struct Fn { const char* n; u64 (*f)(u64, u64); u64 (*c)(u64, u64); }; Fn fs[] = {{"count_primes", count_primes, primesieve_count_primes}, {"count_twins", count_twins, primesieve_count_twins}, {"count_sextuplets", count_sextuplets, primesieve_count_sextuplets}};
    for (auto& i : is) for (auto& f : fs) { if (i.a > 1000 && f.f != count_primes && !H::thorough) continue;
      std::string nm = std::string(f.n) + "(" + num(i.a) + ", " + num(i.b) + ") with " + num(i.th) + " threads";
      u64 want; auto P = i.b - i.a < 100000 ? O::primes_in(i.a, i.b) : std::vector<u64>(); set_num_threads(i.th); want = !P.empty() && f.f == count_primes ? P.size() : f.f(i.a, i.b);
      if (f.f == count_primes && want != O::count_in(i.a, i.b)) { H::viol("%s is wrong without any fault", nm.c_str()); continue; }
      auto op = value<u64>([=] { set_num_threads(i.th); return f.f(i.a, i.b); }, want, num); F::sweep(nm, op, op, st, false);
      auto cop = cvalue([=] { primesieve_set_num_threads(i.th); return f.c(i.a, i.b); }, want); F::sweep("primesieve_" + nm, cop, cop, st, false); }
  }
  if (H::on("store")) for (auto [a, b] : std::vector<std::pair<u64, u64>>{{0, 50}, {0, 20000}, {1000, 400000}, {1000000000000ull, 1000000100000ull}}) {
    auto P = O::primes_in(a, b); u64 A = a, B = b; std::string nm = "(" + num(a) + ", " + num(b) + ")"; u64 n = P.size();
    auto sh = [](const std::vector<u64>& v) { return num(v.size()) + " primes"; };
    auto op = value<std::vector<u64>>([=] { std::vector<u64> v; generate_primes(A, B, &v); return v; }, P, sh); F::sweep("generate_primes" + nm, op, op, st, false);
    auto op2 = value<std::vector<u64>>([=] { std::vector<u64> v; generate_n_primes(n, A, &v); return v; }, P, sh); F::sweep("generate_n_primes" + nm, op2, op2, st, false);
    auto c1 = carray([=](size_t* s) { return (u64*) primesieve_generate_primes(A, B, s, UINT64_PRIMES); }, P, true); F::sweep("primesieve_generate_primes" + nm, c1, c1, st, false);
    auto c2 = carray([=](size_t*) { return (u64*) primesieve_generate_n_primes(n, A, UINT64_PRIMES); }, P, false); F::sweep("primesieve_generate_n_primes" + nm, c2, c2, st, false);
  }
  if (H::on("nth")) for (auto [n, s] : std::vector<std::pair<int64_t, u64>>{{1, 0}, {5000, 0}, {-100, 100000}, {200000, 1000}, {-300, 1000000000000ull}}) {
    u64 want; if (n > 0) { u64 hi = s + 100 + (u64) n * 20; auto P = O::primes_in(s + 1, hi); want = P[(size_t) n - 1]; } else { auto P = O::primes_in(s > 100000 ? s - 100000 : 0, s - 1); want = P[P.size() - (size_t) -n]; }
    for (int th : {1, 4}) { int64_t N = n; u64 S = s; std::string nm = "nth_prime(" + std::to_string(n) + ", " + num(s) + ") with " + num(th) + " threads";
      auto op = value<u64>([=] { set_num_threads(th); return nth_prime(N, S); }, want, num); F::sweep(nm, op, op, st, false);
      auto c = cvalue([=] { primesieve_set_num_threads(th); return primesieve_nth_prime(N, S); }, want); F::sweep("primesieve_" + nm, c, c, st, false); }
  }
  if (H::on("iter")) {
    struct I { u64 s, lo, hi; int f, b; }; I is[] = {{0, 0, 400000, 2000, 2100}, {1000, 0, 400000, 300, 600}, {50000, 0, 400000, 0, 3000}, {1000000000000ull, 999999000000ull, 1000003000000ull, 3000, 5000}, {1000000000000000ull, 999999999990000ull, 1000000000010000ull, 5, 9}};
    for (auto& i : is) { auto P = O::primes_in(i.lo, i.hi); for (u64 hint : {(u64) ~0ull, (u64) (i.s + 100)}) { std::string nm = " from " + num(i.s) + ", stop hint " + num(hint) + ", " + num(i.f) + " forwards and " + num(i.b) + " backwards";
      auto op = iter_cpp(P, i.s, hint, i.f, i.b); F::sweep("iterator" + nm, op, op, st, false);
      auto c = iter_c(P, i.s, hint, i.f, i.b); F::sweep("primesieve_iterator" + nm, c, c, st, false); } }
  }
  if (H::on("print")) for (u64 b : {100ull, 100000ull}) {
    std::string want; for (u64 p : O::primes_in(0, b)) want += num(p) + "\n";
    auto prefix = [&](const std::string& o) { return true; };
    F::sweep_main("print_primes(0, " + num(b) + ")", [=] { try { print_primes(0, b); } catch (const std::exception&) { return 1; } return 0; }, want, prefix, st);
    F::sweep_main("primesieve_print_primes(0, " + num(b) + ")", [=] { errno = 0; primesieve_print_primes(0, b); return errno == EDOM; }, want, prefix, st);
  }
  if (H::on("cli")) {
    struct C { std::vector<const char*> a; std::string out; }; 
    C cs[] = {{{"primesieve", "1000", "-q"}, "Primes: 168\n"}, {{"primesieve", "1e6", "-q", "-t3"}, "Primes: 78498\n"}, {{"primesieve", "-n", "500", "-q"}, "Nth prime: 3571\n"}, {{"primesieve", "2", "30", "-p2", "-q"}, "(3, 5)\n(5, 7)\n(11, 13)\n(17, 19)\n"}};
    for (auto& c : cs) { std::string nm; for (auto s : c.a) nm += std::string(nm.empty() ? "" : " ") + s;
      bool pr = c.a.size() > 3 && !strcmp(c.a[3], "-p2");
      F::sweep_main(nm, [&]() -> int { std::vector<char*> av; for (auto s : c.a) av.push_back((char*) s); av.push_back(nullptr); return psv_app_main((int) c.a.size(), av.data()); }, c.out,
        [&](const std::string& o) { if (pr) return c.out.compare(0, o.size(), o) == 0; for (size_t a = 0; a < o.size(); ) { size_t b = o.find('\n', a); if (b == std::string::npos) b = o.size(); if (b > a && o.find_first_not_of("Primes: Nth0123456789", a) >= b) return false; a = b + 1; } return true; }, st); }
  }
  H::note("fault points", st.points); H::note("exact results", st.exact); H::note("reported failures", st.refused); H::note("processes ended by std::terminate", st.ended);
  H::sample("every allocation of primesieve_next_prime/prev_prime walks from 0 failing once, and from there on");
  return H::done();
}
