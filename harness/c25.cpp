// C25: computations that independent threads of the calling program run at the same time do not
// influence each other. Every pair of operations, each pair in a fresh process (so that first uses
// coincide), under every schedule within the deviation bound, with the happens-before monitor on
// every memory access of both libraries.
#include "algos.h"
#include "cfgs.h"
#include "sieveo.h"
#include "mcrt.h"
#include "BitSieve.hpp"
#include "BinaryIndexedTree.hpp"
#include "PiTable.hpp"
#include "Wheel.hpp"
#include "generate.hpp"
#include <primesieve.h>
#include <primesieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <primesum.hpp>
#include <cerrno>
#include <sstream>
#include <thread>
#include <unistd.h>
typedef uint64_t u64;
typedef unsigned long long ull;
static const u64 M = ~0ull;
struct Op { const char* name; int weight; std::function<std::string()> f; };
static std::string n(u64 v) { return std::to_string(v); }
template <class V> static std::string sum(const V& v) { u64 h = 0; for (auto e : v) h = h * 1000003 + (u64) e; return n(v.size()) + ":" + n(h); }
static std::string six(u64 a, u64 b, int th, int kb, int flags = 63) { primesieve::ParallelSieve ps; ps.setSieveSize(kb); ps.setNumThreads(th); ps.setStart(a); ps.setStop(b); ps.setFlags(flags); ps.sieve(); std::string s; for (int i = 0; i < 6; i++) s += n(ps.getCount(i)) + " "; return s; }
static std::vector<Op> ops() {
  std::vector<Op> v;
  auto A = [&](const char* nm, int w, std::function<std::string()> f) { v.push_back({nm, w, f}); };
  // sieving library
  A("count_primes", 0, [] { return n(primesieve::count_primes(0, 1000)); });
  A("count_sextuplets", 0, [] { return n(primesieve::count_sextuplets(90, 20000)) + n(primesieve_count_twins(5, 3000)); });
  A("six counts by two threads", 1, [] { return six(0, 430, 2, 8); });
  A("six counts, large sieving primes", 2, [] { return six(100000000000ull, 100000000000ull + 30000, 1, 8); });
  A("iterator forward", 0, [] { primesieve::iterator it(100); u64 h = 0; for (int i = 0; i < 600; i++) h = h * 31 + it.next_prime(); return n(h); });
  A("iterator backward", 0, [] { primesieve::iterator it(3000); u64 h = 0; for (int i = 0; i < 440; i++) h = h * 31 + it.prev_prime(); return n(h); });
  A("iterator both ways at 10^6", 0, [] { primesieve::iterator it(1000000, 1003000); u64 h = 0; for (int i = 0; i < 300; i++) h = h * 31 + it.next_prime(); for (int i = 0; i < 20; i++) h = h * 31 + it.prev_prime(); it.skipto(50, 60); return n(h * 31 + it.next_prime()); });
  A("C iterator", 0, [] { primesieve_iterator it; primesieve_init(&it); u64 h = 0; for (int i = 0; i < 400; i++) h = h * 31 + primesieve_next_prime(&it); for (int i = 0; i < 30; i++) h = h * 31 + primesieve_prev_prime(&it); primesieve_skipto(&it, 5000, 6000); h = h * 31 + primesieve_prev_prime(&it); primesieve_free_iterator(&it); return n(h); });
  A("store vector", 0, [] { std::vector<int> w; primesieve::generate_primes(0, 5000, &w); primesieve::generate_n_primes(50, 1000, &w); return sum(w); });
  A("store array", 0, [] { size_t k = 0; errno = 0; short* p = (short*) primesieve_generate_primes(10, 3000, &k, SHORT_PRIMES); std::string s = sum(std::vector<short>(p, p + k)); primesieve_free(p); p = (short*) primesieve_generate_n_primes(20, 32740, SHORT_PRIMES); return s + (p ? " array" : errno == EDOM ? " EDOM" : " ?"); });
  A("store too large", 0, [] { std::vector<int8_t> w; try { primesieve::generate_primes(0, 1000, &w); } catch (primesieve::primesieve_error&) { return std::string("refused"); } return std::string("not refused"); });
  A("nth_prime", 0, [] { return n(primesieve::nth_prime(300, 10)) + " " + n(primesieve::nth_prime(-40, 1000)); });
  A("C nth_prime", 0, [] { errno = 0; u64 r = primesieve_nth_prime(-40, 20); return (r == PRIMESIEVE_ERROR ? "error " : "?") + std::to_string(errno == EDOM) + n(primesieve_nth_prime(40, 20)); });
  A("settings read", 0, [] { return n(primesieve::get_sieve_size()) + " " + n(primesieve::get_num_threads()) + n(primesieve::get_max_stop()) + primesieve::primesieve_version() + primesum::primesum_version() + n(primesum::get_num_threads()) + primesum::get_max_x() + primesum::get_max_x(50); });
  // summing library
  A("pi(string)", 0, [] { return primesum::pi("10^4 + 7"); });
  A("pi(string) refused", 0, [] { try { primesum::pi("10^36"); } catch (primesum::primesum_error&) { return std::string("refused"); } return std::string("?"); });
  for (auto& a : algos()) A(a.name, 0, [&a] { std::string s; for (u64 x : {0, 4, 30, 1000, 50021}) s += str(a.f(x, 1)) + " "; return s; });
  A("pi_deleglise_rivat by two threads", 2, [] { return str(pi_deleglise_rivat((int128_t) 200000000, 2)); });
  A("pi_lmo_parallel1 by two threads", 2, [] { return str(pi_lmo_parallel1((int128_t) 20000000, 2)); });
  A("S1", 0, [] { return str(S1(1000000, 500, 4, 1)) + str(S1((int128_t) 1000000, 500, 4, 2)); });
  A("S2_trivial", 0, [] { return str(S2_trivial(100000000, 800, 100000000 / 800, 6, 1)); });
  A("S2_easy", 1, [] { return str(S2_easy(100000000, 800, 100000000 / 800, 6, 2)); });
  A("S2_hard", 1, [] { return str(S2_hard(100000000, 800, 100000000 / 800, 6, 1)); });
  A("P2", 1, [] { return str(P2(10000000, 300, 2)); });
  A("phi", 0, [] { std::string s; for (int a : {0, 3, 8, 60, 300}) s += n((u64) phi(1000003, a, 1)) + " "; return s; });
  A("phi_sum", 0, [] { std::string s; for (int a : {0, 3, 8, 60}) s += str(phi_sum((int128_t) 20011, a)) + " "; return s + H::s128((i128) phi_sum((int64_t) 999, 5)); });
  A("pi_legendre", 0, [] { return n((u64) pi_legendre(1000000, 1)) + n((u64) primesum::nth_prime(7)); });
  A("tables", 0, [] { auto p = generate_primes(2000); auto mu = generate_moebius(500); auto l = generate_lpf(500); auto pc = generate_pi(500); PiTable pt(3000); FactorTable<uint16_t> ft(2000, 1); u64 h = 0; for (int64_t m = 1; m < 400; m++) h = h * 31 + (u64) ft.lpf(m) + (u64) (ft.mu(m) + 1); for (int i = 1; i < 3000; i++) h = h * 31 + (u64) pt[i]; return sum(p) + sum(mu) + sum(l) + sum(pc) + n(h); });
  A("bit sieve", 0, [] { BitSieve s(512); BinaryIndexedTree t; std::string r; for (int64_t low : {1, 513, 99999}) { low |= 1; for (int c : {2, 5, 8}) { s.pre_sieve(c, low); r += H::s128((i128) s.sum(low, 0, 500)); t.init(s, low); r += H::s128((i128) t.sum(400)) + " "; } } return r; });
  A("wide integers", 0, [] { int256_t a = (int256_t) ((int128_t) 1 << 100) * 12345678901ll, b = a / 977; b += a % 1009; std::ostringstream o; o << a << ' ' << b << ' ' << (a > b) << (a << 30) << ' ' << H::s128((i128) to_int128("2^90 + 3*(7-4)")); return o.str(); });
  return v;
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(3);
  auto V = ops(); const int m = (int) V.size();
  u64 k = 0;
  // what each operation returns alone, each in a process of its own; the operations themselves are judged by the other checks
  std::vector<std::string> want(m);
  for (int i = 0; i < m; i++) { H::begin("%s alone", V[i].name); auto p = H::run_forked([&]() -> int { primesieve::set_num_threads(2); primesieve::set_sieve_size(16); primesum::set_num_threads(2); printf("%s", V[i].f().c_str()); fflush(stdout); return 0; }, 60); if (!p.exited || p.code) { H::viol("%s alone ends with %s %d: %s", V[i].name, p.exited ? "status" : "signal", p.exited ? p.code : p.sig, (p.out + p.err).substr(0, 300).c_str()); return H::done(); } want[i] = p.out; }
  auto together = [&](std::vector<int> t, int base, int dev, double wall) {
    double t0 = H::elapsed();
    std::string nm; for (int i : t) nm += (nm.empty() ? "" : " || ") + std::string(V[i].name);
    H::begin("%s, base scheduler %d", nm.c_str(), base); H::distinct++; H::evals += t.size();
    auto p = H::run_forked([&]() -> int {
      primesieve::set_num_threads(2); primesieve::set_sieve_size(16); primesum::set_num_threads(2); mc::tsan_on = true; mc::set_base((mc::Base) base); mc::set_clock_alphabet({1000});
      mc::fatal_hook = [](const std::string& w) { printf("F %s\n", w.c_str()); fflush(stdout); _exit(3); };
      mc::Bounds B; B.max_dev_sched = dev; B.max_dev_clock = 0; B.max_wall = wall;
      std::vector<std::string> got(t.size()); int fails = 0;
      auto R = mc::explore(B, [&]() -> std::string {
        std::vector<std::thread> w;
        for (size_t i = 0; i < t.size(); i++) { got[i] = "(nothing)"; w.emplace_back([&, i] { try { got[i] = V[t[i]].f(); } catch (std::exception& e) { got[i] = std::string("exception ") + e.what(); } }); }
        for (auto& x : w) x.join();
        for (size_t i = 0; i < t.size(); i++) if (got[i] != want[t[i]]) return std::string(V[t[i]].name) + " returns " + got[i].substr(0, 200) + ", alone " + want[t[i]].substr(0, 200);
        return "";
      }, [&](const std::string& w, const std::string& ch) { printf("F %s; schedule [%s]\n", w.substr(0, 600).c_str(), ch.substr(0, 300).c_str()); return ++fails < 1; });
      printf("R %llu %llu %llu %d %zu %llu %llu\n", (ull) R.executions, (ull) R.states, (ull) R.transitions, (int) R.exhaustive, R.max_depth, (ull) R.multi_thread_exec, (ull) mc::tsan_accesses());
      fflush(stdout); _exit(0);
    }, H::thorough ? 600 : 120);
    std::istringstream in(p.out); std::string l; bool ok = false;
    while (std::getline(in, l)) {
      if (l[0] == 'F') H::viol("%s, base scheduler %d: %s", nm.c_str(), base, l.c_str() + 2), ok = true;
      ull e, s, tr, mt, ac; int ex; size_t d;
      if (sscanf(l.c_str(), "R %llu %llu %llu %d %zu %llu %llu", &e, &s, &tr, &ex, &d, &mt, &ac) == 7) { ok = true; H::traces += e; H::states += s; H::transitions += tr; if (!ex) { H::exhaustive = false; H::note("schedule spaces cut off by the time limit", 1); } else H::note("schedule spaces covered completely", 1); H::note("executions with a choice between threads", mt); H::note("monitored accesses (thousands)", ac / 1000); if (getenv("VERIF_VERBOSE")) fprintf(stderr, "%s b%d: %llu exec depth %zu %llu acc/exec ex %d %.2f s\n", nm.c_str(), base, e, d, ac / (e ? e : 1), ex, H::elapsed() - t0); }
    }
    if (!ok && p.timeout) H::viol("%s, base scheduler %d: does not end", nm.c_str(), base);
    else if (!ok) H::viol("%s, base scheduler %d: ends with %s %d: %s", nm.c_str(), base, p.exited ? "status" : "signal", p.exited ? p.code : p.sig, (p.out + p.err).substr(0, 400).c_str());
  };
  for (int i = 0; i < m; i++) for (int j = i; j < m; j++) for (int base = 0; base < 3; base++) {
    int w = V[i].weight + V[j].weight;
    if (!H::thorough && base && (w || (i + j + base) % 3)) continue;
    if (!H::mine(k++)) continue;
    if (!H::time_left()) break;
    together({i, j}, base, H::thorough ? 2 : w > 1 ? 0 : 1, H::thorough ? 12 : 1.5);
  }
  // three at once
  for (int i = 0; i < m; i++) for (int j : {0, 4, 14, m - 4}) {
    if (!H::mine(k++)) continue;
    if (!H::time_left()) break;
    if (V[i].weight > 1) continue;
    together({i, j, i}, (i + j) % 3, H::thorough ? 1 : 0, H::thorough ? 12 : 2);
  }
  H::sample("every unordered pair of %d operations of both libraries, and triples, each in a fresh process", m);
  return H::done();
}
