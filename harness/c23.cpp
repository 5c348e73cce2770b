// C23 (summing program): every allocation failing, in every computation, never yields a wrong number.
#include "algos.h"
#include "fault.h"
#include "FactorTable.hpp"
#include <primesum-internal.hpp>
using namespace primesum;
typedef uint64_t u64; typedef int64_t i64; typedef unsigned long long ull;
extern "C" int ps_app_main(int, char**);
template <class R> static F::Op value(std::function<R()> f, std::string want) {
  return [=]() -> std::string { std::string r; try { R v = f(); mc::fault_pause(); if constexpr (std::is_same<R, std::string>::value) r = v; else r = str(v); } catch (const std::exception& e) { mc::fault_pause(); return std::string("!") + e.what(); } return r == want ? "" : "returns " + r + " instead of " + want; };
}
static bool no_number(const std::string& out) { // no line is a number
  for (size_t a = 0; a < out.size(); ) { size_t b = out.find('\n', a); if (b == std::string::npos) b = out.size(); if (b > a && out.find_first_not_of("-0123456789", a) >= b) return false; a = b + 1; } return true; }
int main(int argc, char** argv) {
  H::init(argc, argv);
  F::Stat st;
  if (H::on("algos")) for (auto& a : algos()) for (auto [x, t] : std::vector<std::pair<u64, int>>{{30, 1}, {1000, 1}, {100000, 1}, {100000, 3}, {3000000, 2}, {1000000000, 3}, {30000000000ull, 2}}) {
    if (x > a.cheap || (x > 1000000 && std::string(a.name).find("lmo") != std::string::npos && std::string(a.name).find("parallel") == std::string::npos)) continue;
    if (x > 3000000000ull && !H::thorough && std::string(a.name) != "pi_deleglise_rivat" && std::string(a.name) != "pi_lmo_parallel1") continue;
    std::string want = H::s128((i128) O::prime_sum(x)); i128 X = (i128) x;
    auto op = value<int256_t>([=, f = a.f, t = t] { return f(X, t); }, want);
    auto af = value<int256_t>([=, f = a.f] { return f(X, 1); }, want);
    F::sweep(std::string(a.name) + "(" + std::to_string(x) + ") with " + std::to_string(t) + " threads", op, af, st, true, H::thorough ? 1 : 1 + x / 20000000);
  }
  if (H::on("string")) for (const char* x : {"-5", "97", "10^5", "1e6", "2*10^8"}) {
    std::string want = pi(std::string(x), 1);
    auto op = value<std::string>([=] { return pi(std::string(x), 2); }, want);
    F::sweep(std::string("primesum::pi(\"") + x + "\")", op, op, st, true);
  }
  if (H::on("parts")) {
    u64 x = 8100000000ull; i64 y = 2100, z = (i64) (x / 2100), c = L::c_of(2100);
    struct P { const char* n; std::function<int256_t(int)> f; }; P ps[] = {
      {"P2", [=](int t) { return P2((int128_t) x, y, t); }}, {"S1", [=](int t) { return S1((int128_t) x, y, c, t); }}, {"S2_trivial", [=](int t) { return S2_trivial((int64_t) x, y, z, c, t); }},
      {"S2_easy", [=](int t) { return S2_easy((int64_t) x, y, z, c, t); }}, {"S2_easy (wide)", [=](int t) { return S2_easy((int128_t) x, y, z, c, t); }}, {"S2_hard", [=](int t) { return S2_hard((int128_t) x, y, z, c, t); }},
      {"phi", [=](int t) { return int256_t(phi((int64_t) x, 60, t)); }}, {"pi_legendre", [=](int t) { return int256_t(pi_legendre(20000000, t)); }}, {"nth_prime", [](int) { return int256_t(nth_prime(9)); }},
      {"phi_sum", [](int) { return int256_t(phi_sum((int128_t) 1000000, 30)); }} };
    for (auto& p : ps) { std::string want = str(p.f(1)); /* one thread: the parent keeps no worker that a fork would lose */ auto f = p.f; auto op = value<int256_t>([=] { return f(3); }, want); F::sweep(std::string(p.n) + "(x=8100000000, y=2100)", op, op, st, true); }
  }
  if (H::on("cli")) {
    struct C { std::vector<const char*> a; const char* x; }; C cs[] = {{{"primesum", "1000"}, "1000"}, {{"primesum", "10^6", "--threads=3"}, "1000000"}, {{"primesum", "1e5", "--lmo"}, "100000"}, {{"primesum", "--lmo2", "100000"}, "100000"}, {{"primesum", "99999", "-d", "--alpha=2", "-t2"}, "99999"}, {{"primesum", "100000", "--lmo_parallel1", "-t4"}, "100000"}, {{"primesum", "12345", "--lmo1"}, "12345"}};
    for (auto& c : cs) {
      std::string want = H::s128((i128) O::prime_sum(strtoull(c.x, nullptr, 10))) + "\n", nm;
      for (auto s : c.a) nm += std::string(nm.empty() ? "" : " ") + s;
      auto prog = [&]() -> int { std::vector<char*> av; for (auto s : c.a) av.push_back((char*) s); av.push_back(nullptr); return ps_app_main((int) c.a.size(), av.data()); };
      F::sweep_main(nm, prog, want, no_number, st);
    }
  }
  H::note("fault points", st.points); H::note("exact results", st.exact); H::note("reported failures", st.refused); H::note("processes ended by std::terminate", st.ended);
  H::sample("every allocation of pi_deleglise_rivat(100000) with 3 threads failing once, and from there on");
  return H::done();
}
