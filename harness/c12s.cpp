// C12 (sieve program): numbers on its command line, see c12.cpp.
#include "ev.h"
#include "mcrt.h"
#include <primesieve/calculator.hpp>
#include "../lib/primesieve/src/app/cmdoptions.hpp"
#include <primesieve/primesieve_error.hpp>
typedef uint64_t u64; typedef unsigned long long ull;
extern "C" int psv_app_main(int, char**);
static uint64_t accepted = 0, rejected = 0;
static const i128 MX = (i128) (~(u128) 0 >> 1), MN = -MX - 1;
template <class T> static void one(const std::string& s, const char* type, i128 lo, i128 hi) {
  H::evals++;
  auto want = Ev(s, lo, hi, sizeof(T) * 8).run();
  bool got = true; T v = 0;
  try { v = calculator::eval<T>(s); } catch (calculator::error&) { got = false; }
  if (got != (bool) want) H::viol("%s: \"%s\" is %s%s, definition %s", type, s.c_str(), got ? "accepted as " : "rejected", got ? H::s128((i128) v).c_str() : "", want ? H::s128(*want).c_str() : "not an expression with a representable value");
  else if (got && (i128) v != *want) H::viol("%s: \"%s\" = %s, definition %s", type, s.c_str(), H::s128((i128) v).c_str(), H::s128(*want).c_str());
}
// the option record for `primesieve <args>`
static bool parse(std::vector<std::string> a, CmdOptions& o) {
  a.insert(a.begin(), "primesieve"); std::vector<char*> b; for (auto& s : a) b.push_back(&s[0]); b.push_back(nullptr);
  try { o = parseOptions((int) a.size(), b.data()); return true; } catch (const std::exception&) { return false; }
}
static void arg(const std::string& s) {
  std::string c(s.c_str()); // an argument ends at the first zero byte
  auto w = Ev(c, MN, MX, 128).run(); if (c.empty()) w = {};
  auto in = [&](i128 lo, i128 hi) { return w && *w >= lo && *w <= hi; };
  CmdOptions o; bool got; const i128 U = ~(u64) 0;
  H::evals += 4;
  got = parse({"--dist=" + c}, o); bool want = in(0, U);
  if (got != want || (got && (o.numbers.size() != 1 || (i128) o.numbers[0] != *w))) H::viol("primesieve '--dist=%s' is %s, definition %s", c.c_str(), got ? std::to_string(o.numbers[0]).c_str() : "rejected", w ? H::s128(*w).c_str() : "not a number");
  if (want) accepted++; else rejected++;
  got = parse({"17", "--dist=" + c}, o); want = in(0, U - 17);
  if (got != want || (got && (o.numbers.size() != 2 || o.numbers[0] != 17 || (i128) o.numbers[1] != *w + 17))) H::viol("primesieve 17 '--dist=%s' is %s, definition 17 + %s", c.c_str(), got ? std::to_string(o.numbers.back()).c_str() : "rejected", w ? H::s128(*w).c_str() : "not a number");
  got = parse({"9", "--threads=" + c}, o); want = in(INT32_MIN, INT32_MAX);
  if (got != want || (got && o.threads != *w)) H::viol("primesieve '--threads=%s' is %d, definition %s", c.c_str(), got ? o.threads : -999, w ? H::s128(*w).c_str() : "not a number");
  // as an operand: it must have a digit and must not look like an option
  if (!c.empty() && c[0] != '-' && c.find_first_of("0123456789") != std::string::npos) {
    got = parse({c, "3"}, o); want = in(0, U);
    if (got != want || (got && (o.numbers.size() != 2 || (i128) o.numbers[0] != *w))) H::viol("primesieve '%s' 3 is %s, definition %s", c.c_str(), got ? std::to_string(o.numbers[0]).c_str() : "rejected", w ? H::s128(*w).c_str() : "not a number");
  }
}
static void ck(const std::string& s, bool types = true) {
  arg(s);
  one<__int128_t>(s, "128-bit", MN, MX);
  if (types) { one<int64_t>(s, "64-bit", INT64_MIN, INT64_MAX); one<int32_t>(s, "32-bit", INT32_MIN, INT32_MAX); }
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  u64 k = 0;
  if (H::on("tokens")) {
    struct Fam { std::vector<std::string> t; int len; };
    std::vector<Fam> fams = {
      {{"0", "1", "2", "3", "12", "0xa", "(", ")", "+", "-", "*", "/", "%", "**", "^", "e", "|", "&", "<<", ">>", "~", " ", "x", ".", "<", "="}, H::thorough ? 4 : 3},
      {{"1", "2", "7", "(", ")", "+", "-", "*", "/", "^", "e", "<<", "|"}, H::thorough ? 6 : 5},
      {{"2", "5", "-", "**", "*", "&", ">>", "%", "(", ")"}, H::thorough ? 6 : 5},
      {{"0", "0x", "f", "g", "1", "e", "E", " "}, 5},
    };
    for (auto& F : fams) {
      for (int n = 0; n <= F.len; n++) {
        std::vector<int> ix(n, 0);
        while (true) {
          if (H::mine(k++)) { std::string s; for (int j : ix) s += F.t[j]; if (k % 64 < 8) H::begin("expression \"%s\"", s.c_str()); H::distinct++; ck(s, n <= 3); }
          int p = n - 1; while (p >= 0 && ++ix[p] == (int) F.t.size()) ix[p--] = 0;
          if (p < 0) break;
        }
      }
      H::sample("primesieve: all sequences of up to %d of %zu tokens (%s %s %s ...) as operand, distance and thread count", F.len, F.t.size(), F.t[0].c_str(), F.t[1].c_str(), F.t[2].c_str());
    }
  }
  if (H::on("bytes")) for (int a = 1; a < 256; a++) for (const char* f : {"%c", "1%c", "1%c2", "(1%c2)", "%c1", "0%c1", "12 %c 3", "0x%c", "1e%c", "2*%c3", "1%c%c2"}) { if (!H::mine(k++)) continue; char b[32]; snprintf(b, sizeof b, f, a, a); H::begin("byte %d in %s", a, f); H::distinct++; ck(b); }
  if (H::on("range")) {
    std::vector<std::string> L;
    auto lit = [&](u128 v) { std::string s; if (!v) s = "0"; while (v) { s.insert(s.begin(), '0' + (int) (v % 10)); v /= 10; } L.push_back(s); };
    for (u128 v : {(u128) 0, (u128) 1, (u128) 2, (u128) 3, (u128) 10, (u128) 19, (u128) 20, (u128) 63, (u128) 64, (u128) 127, (u128) 128}) lit(v);
    for (int b : {31, 32, 63, 64, 127}) for (int d = -18; d <= 1; d++) if (d >= -2 || d < -16) lit(((u128) 1 << b) + d);
    L.push_back("0xffffffffffffffff"); L.push_back("0x10000000000000000"); L.push_back("99999999999999999999999999999999999999999999"); L.push_back("000000000000000000000000000000000000000000000000000012");
    std::vector<std::string> O{"+", "-", "*", "/", "%", "**", "^", "e", "|", "&", "<<", ">>"}, U{"", "-", "~"};
    for (auto& u : U) for (auto& a : L) { if (!H::mine(k++)) continue; ck(u + a); for (auto& o : O) for (auto& v : U) for (auto& b : L) { H::begin("%s%s%s%s%s", u.c_str(), a.c_str(), o.c_str(), v.c_str(), b.c_str()); ck(u + a + o + v + b); H::distinct++; } }
    for (int b = -40; b <= 70; b++) for (int n = -3; n <= 130; n++) { if (!H::mine(k++)) continue; std::string s = "(" + std::to_string(b) + ")"; H::begin("%s ** %d", s.c_str(), n); for (const char* o : {"**", "e", "<<", ">>"}) ck(s + o + std::to_string(n)); H::distinct += 4; }
    H::sample("primesieve: %zu boundary literals under every operator", L.size());
  }
  if (H::on("program")) { // the whole program: the count for the value, or a failure without one
    static const char* E[] = {"100", "10^2", "1e3", "0x64", "2^64+100", "2^65", "1e20", "18446744073709551616", "18446744073709551716", "0-1", "5-5", "5e-1", "1<<64", "1<<3", "(2^64-1)/10^17", "2^64-2^64+30", "10+-5", "7/0", "2**3**2", "3*(", "1 000", "--dist=2^64", "-d100", "-d2^64+100", "17 -d2^64-17", "17 -d100", "-t2^32+1 100", "-s2^32+16 100", "-c2^32+1 100", "-p2^32+1 100", "-t2 100", "100 -n", "2^64+5 -n"};
    for (auto e : E) {
      if (!H::mine(k++)) continue;
      std::vector<std::string> a{"primesieve"}; std::string t = e; if (t == "1 000") a.push_back(t); else { size_t p; while ((p = t.find(' ')) != std::string::npos) { a.push_back(t.substr(0, p)); t = t.substr(p + 1); } a.push_back(t); }
      a.push_back("-q");
      // what it denotes
      bool ok = true, nth = false; std::vector<i128> v; for (size_t i = 1; i < a.size(); i++) { std::string s = a[i]; if (s == "-n") { nth = true; continue; } if (s == "-q") continue; i128 hi = ~(u64) 0, base = 0; bool num = true; if (s.substr(0, 7) == "--dist=") { s = s.substr(7); base = v.empty() ? 0 : v[0]; } else if (s.substr(0, 2) == "-d") { s = s.substr(2); base = v.empty() ? 0 : v[0]; } else if (s[0] == '-') { s = s.substr(2); hi = INT32_MAX; num = false; } auto w = Ev(s, MN, MX, 128).run(); if (!w || *w < 0 || *w + base > hi) ok = false; else if (num) v.push_back(*w + base); }
      H::begin("primesieve %s", e); H::evals++; H::distinct++;
      auto P = H::run_forked([&] { std::vector<char*> b; for (auto& s : a) b.push_back(&s[0]); b.push_back(nullptr); return psv_app_main((int) a.size(), b.data()); }, 30);
      std::string want; if (ok) { u64 lo = v.size() > 1 ? (u64) v[0] : 0, hi = (u64) v.back(); want = std::to_string(nth ? O::small_primes()[hi - 1] : O::count_in(lo, hi)); }
      size_t c = P.out.find(": "); std::string got = c == std::string::npos ? P.out : P.out.substr(c + 2); while (!got.empty() && got.back() == '\n') got.pop_back();
      if (P.timeout) H::viol("primesieve %s does not finish", e);
      else if (ok ? (P.code != 0 || got != want) : (!P.exited || P.code == 0 || !P.out.empty())) H::viol("primesieve %s prints '%s' (status %d), expected %s", e, P.out.c_str(), P.code, ok ? want.c_str() : "a failure");
    }
    H::sample("primesieve: the whole program for %zu command lines", sizeof E / sizeof *E);
  }
  H::note("arguments with a value", accepted); H::note("arguments to be rejected", rejected);
  return H::done();
}
