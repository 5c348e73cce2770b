// C12: every token sequence up to a length, against an independent evaluator.
#include "leaves.h"
#include "primesum-internal.hpp"
#include "mcrt.h"
#include "calculator.hpp"
#include "ev.h"
using namespace primesum;
typedef uint64_t u64;
static uint64_t accepted = 0, rejected = 0;
template <class T, class F> static void one(const std::string& s, const char* type, i128 lo, i128 hi, F f) {
  H::evals++;
  auto want = Ev(s, lo, hi, sizeof(T) * 8).run();
  bool got = true; T v = 0;
  try { v = f(s); } catch (calculator::error&) { got = false; }
  if (want) accepted++; else rejected++;
  if (got != (bool) want) H::viol("%s: \"%s\" is %s%s, definition %s", type, s.c_str(), got ? "accepted as " : "rejected", got ? H::s128((i128) v).c_str() : "", want ? H::s128(*want).c_str() : "not an expression with a representable value");
  else if (got && (i128) v != *want) H::viol("%s: \"%s\" = %s, definition %s", type, s.c_str(), H::s128((i128) v).c_str(), H::s128(*want).c_str());
}
static const i128 MX = (i128) (~(u128) 0 >> 1), MN = -MX - 1;
static void ck(const std::string& s, int types = 1) {
  one<int128_t>(s, "128-bit", MN, MX, [](const std::string& e) { return to_int128(e); });
  if (types > 1) { one<int64_t>(s, "64-bit", INT64_MIN, INT64_MAX, [](const std::string& e) { return calculator::eval<int64_t>(e); }); one<int32_t>(s, "32-bit", INT32_MIN, INT32_MAX, [](const std::string& e) { return calculator::eval<int32_t>(e); }); }
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  u64 k = 0;
  if (H::on("tokens")) {
    struct Fam { std::vector<std::string> t; int len; };
    std::vector<Fam> fams = {
      {{"0", "1", "2", "3", "12", "0xa", "(", ")", "+", "-", "*", "/", "%", "**", "^", "e", "|", "&", "<<", ">>", "~", " ", "x", ".", "<"}, 4},
      {{"1", "2", "7", "(", ")", "+", "-", "*", "/", "^", "e", "<<", "|"}, H::thorough ? 7 : 6},
      {{"2", "5", "-", "**", "*", "&", ">>", "%", "(", ")"}, H::thorough ? 7 : 6},
      {{"3", "2", "+", "*", "^", "-"}, H::thorough ? 9 : 7},
      {{"0", "0x", "f", "F", "g", "1", "e", "E", " ", "\t"}, 6},
    };
    for (auto& F : fams) {
      for (int n = 0; n <= F.len; n++) {
        std::vector<int> ix(n, 0);
        while (true) {
          if (H::mine(k++)) { std::string s; for (int j : ix) s += F.t[j]; if (k % 64 < 8) H::begin("expression \"%s\"", s.c_str()); H::distinct++; ck(s, n <= 4 ? 3 : 1); }
          int p = n - 1; while (p >= 0 && ++ix[p] == (int) F.t.size()) ix[p--] = 0;
          if (p < 0) break;
        }
      }
      H::sample("all sequences of up to %d of %zu tokens (%s %s %s ...)", F.len, F.t.size(), F.t[0].c_str(), F.t[1].c_str(), F.t[2].c_str());
    }
  }
  if (H::on("bytes")) { // every byte string of length 1 and 2, and every byte inside and after a number
    for (int a = 1; a < 256; a++) { for (const char* f : {"%c", "1%c", "1%c2", "(1%c2)", "%c1", "0%c1", "12 %c 3", "0x%c", "1e%c", "2*%c3", "1%c%c2"}) { if (!H::mine(k++)) continue; char b[32]; snprintf(b, sizeof b, f, a, a); H::begin("byte %d in %s", a, f); H::distinct++; ck(b, 3); }
      for (int c = 1; c < 256; c++) { if (!H::mine(k++)) continue; std::string s; s += (char) a; s += (char) c; ck(s); ck("7" + s + "3"); H::distinct += 2; } }
    for (auto& s : {std::string("1\0", 2), std::string("1\0002", 3), std::string("\0", 1), std::string("1+\0", 3)}) if (H::mine(k++)) ck(s, 3);
  }
  if (H::on("range")) { // boundary literals under every operator
    std::vector<std::string> L;
    auto lit = [&](u128 v) { std::string s; if (!v) s = "0"; while (v) { s.insert(s.begin(), '0' + (int) (v % 10)); v /= 10; } L.push_back(s); };
    for (u128 v : {(u128) 0, (u128) 1, (u128) 2, (u128) 3, (u128) 7, (u128) 10, (u128) 38, (u128) 39, (u128) 62, (u128) 63, (u128) 64, (u128) 126, (u128) 127, (u128) 128, (u128) 4294967296ull}) lit(v);
    for (int b : {31, 32, 62, 63, 64, 126, 127}) { lit(((u128) 1 << b) - 1); if (b == 127 || b == 63 || b == 31) { lit((u128) 1 << b); lit(((u128) 1 << b) + 1); } }
    L.push_back("340282366920938463463374607431768211466"); L.push_back("0x7fffffffffffffffffffffffffffffff"); L.push_back("0x80000000000000000000000000000000"); L.push_back("0x1000000000000000000000000000000000"); L.push_back("99999999999999999999999999999999999999999999"); L.push_back("000000000000000000000000000000000000000000000000000012");
    std::vector<std::string> O{"+", "-", "*", "/", "%", "**", "^", "e", "|", "&", "<<", ">>"}, U{"", "-", "~", "- -", "-~"};
    for (auto& u : U) for (auto& a : L) { if (!H::mine(k++)) continue; ck(u + a, 3); for (auto& o : O) for (auto& v : U) for (auto& b : L) { H::begin("%s%s%s%s%s", u.c_str(), a.c_str(), o.c_str(), v.c_str(), b.c_str()); ck(u + a + o + v + b, 3); H::distinct++; } }
    std::vector<std::string> A; for (size_t i = 0; i < L.size(); i += H::thorough ? 1 : 2) A.push_back(L[i]);
    for (auto& a : A) for (auto& o : O) { if (!H::mine(k++)) continue; for (auto& b : A) for (auto& p : O) for (auto& c : A) { H::begin("%s%s%s%s%s", a.c_str(), o.c_str(), b.c_str(), p.c_str(), c.c_str()); ck(a + o + b + p + c); ck("(" + a + o + b + ")" + p + "-" + c); ck(a + o + "(" + b + p + c + ")"); H::distinct += 3; } }
    // powers: all bases and exponents around the limits
    for (int b = -130; b <= 130; b++) for (int n = -3; n <= 140; n++) { if (!H::mine(k++)) continue; std::string s = "(" + std::to_string(b) + ")"; H::begin("%s ** %d", s.c_str(), n); ck(s + "**" + std::to_string(n), 3); ck(s + "^" + (n < 0 ? "(" + std::to_string(n) + ")" : std::to_string(n)), 3); ck(s + "e" + std::to_string(n), 3); ck(s + "<<" + std::to_string(n), 3); ck(s + ">>" + std::to_string(n), 3); H::distinct += 5; }
    // deep nesting
    for (int d : {1, 2, 10, 100, 1000}) { if (!H::mine(k++)) continue; std::string s(d, '('); s += "7"; ck(s + std::string(d, ')')); ck(s + std::string(d - 1, ')')); ck(s + std::string(d + 1, ')')); std::string m(d, '-'); ck(m + "7"); std::string p = "1"; for (int i = 0; i < d; i++) p += "+1*2"; ck(p); std::string q = "1"; for (int i = 0; i < d; i++) q += "**1"; ck(q); H::distinct += 6; }
  }
  H::note("expressions with a value", accepted); H::note("strings to be rejected", rejected);
  return H::done();
}
