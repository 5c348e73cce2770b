// C14: the limits of the computations: refusal beyond them, admission up to them.
#include "num.h"
#include <cmath>
#include <csignal>
#include <cstring>
#include <sys/time.h>
using namespace primesum;
extern "C" int ps_app_main(int, char**);
enum Out { REFUSED, ADMITTED, NUMBER, CRASH };
static const char* ON[] = {"refused", "admitted (still computing or out of memory)", "answered with a number", "crashed"};
// runs main() for at most 0.25 s of CPU time: a computation that is still going was admitted
static Out cli(const std::vector<std::string>& args, std::string* text = nullptr) {
  std::vector<std::string> st{"primesum"}; for (auto& a : args) st.push_back(a);
  std::vector<char*> av; for (auto& s : st) av.push_back(&s[0]); av.push_back(nullptr);
  auto r = H::run_forked([&] {
    itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_usec = 250000; signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &it, nullptr);
    return ps_app_main((int) st.size(), av.data());
  }, 5);
  if (text) *text = r.out + r.err;
  if (!r.exited) return r.sig == SIGPROF || r.timeout ? ADMITTED : CRASH;
  if (r.code == 0) return NUMBER;
  if (r.err.find("memory") != std::string::npos) return ADMITTED;
  bool digits = !r.out.empty() && r.out.find_first_not_of("0123456789-\n") == std::string::npos;
  return digits ? NUMBER : REFUSED;
}
static std::string num(i128 v) { return v < 0 ? "0" + H::s128(v) : H::s128(v); }
struct Opt { const char* o; bool narrow; };
static const Opt OPTS[] = {{"", false}, {"-d", false}, {"--deleglise_rivat_parallel1", false}, {"--pi", false}, {"--P2", false}, {"--S1", false}, {"--S2_trivial", false}, {"--S2_easy", false}, {"--S2_hard", false},
  {"-l", true}, {"--lmo1", true}, {"--lmo2", true}, {"--lmo3", true}, {"--lmo4", true}, {"--lmo5", true}, {"--lmo_parallel1", true}};
static void expect(const std::string& x, const Opt& o, const std::string& alpha, Out want, const char* why) {
  std::vector<std::string> a{x}; if (*o.o) a.push_back(o.o); if (!alpha.empty()) a.push_back("--alpha=" + alpha);
  std::string cmd; for (auto& s : a) cmd += " " + s;
  H::begin("primesum%s", cmd.c_str()); H::evals++; H::distinct++;
  std::string text; Out r = cli(a, &text);
  // a computation with nothing to do may finish at once (e.g. no leaves of its kind): that is an admission
  if (want == ADMITTED && r == NUMBER && o.o[0] == '-' && strncmp(o.o, "--S", 3) == 0) r = ADMITTED;
  if (r != want) {
    if (x == "10^31" && alpha.empty() && r == REFUSED) H::viol("documented maximum 10^31 refused: primesum%s", cmd.c_str());
    else H::viol("primesum%s: %s, but %s; output \"%s\"", cmd.c_str(), ON[r], why, text.substr(0, 200).c_str());
  }
}
// limit as the code states it for a fixed factor
static i128 limit_of(double a) { return H::p128(get_max_x(a)); }
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8); mc::set_clock_alphabet({100});
  uint64_t k = 0;
  // (1) the stated limit itself: (2^61 alpha)^(3/2) up to (2^62 alpha)^(3/2), never larger than 128 bits
  if (H::on("formula")) {
    i128 prev = 0; long n = H::thorough ? 40000 : 4000;
    for (long i = 0; i <= n; i++) {
      double a = std::exp(std::log(2.3e6) * (double) i / (double) n);
      if (!H::mine(k++)) { prev = limit_of(a); continue; }
      H::begin("get_max_x(%.17g)", a); H::evals++; H::distinct++;
      i128 L = limit_of(a);
      long double lo = std::pow(std::pow(2.0L, 61) * (long double) a, 1.5L) * (1 - 1e-12L), hi = std::pow(std::pow(2.0L, 62) * (long double) a, 1.5L);
      if ((long double) L < lo || (long double) L >= hi) H::viol("get_max_x(%.17g) = %s is outside what 61 to 62 bits of z allow", a, get_max_x(a).c_str());
      if (L < prev) H::viol("get_max_x decreases at %.17g", a);
      prev = L;
    }
    for (double a = 2.4e6; a < 1e300; a *= a < 1e9 ? 1.01 : 1e6) { // the limit stays below 2^127
      H::begin("get_max_x(%.17g)", a); H::evals++; H::distinct++;
      i128 L = limit_of(a); long double lo = std::min(std::pow(std::pow(2.0L, 61) * (long double) a, 1.5L), std::pow(2.0L, 127)) * (1 - 1e-12L);
      if (L < prev || (long double) L < lo) H::viol("get_max_x(%.17g) = %s", a, get_max_x(a).c_str());
      prev = L;
    }
    H::sample("get_max_x on %ld tuning factors from 1 to 2.3e6 and above; get_max_x() = %s", n, get_max_x().c_str());
  }
  // (2) the tuning factor in use: the given one, clamped to [1, x^(1/6)]
  if (H::on("alpha")) {
    for (int e = 0; e < 127; e++) for (int d = -1; d <= 1; d++) for (double a : {1.0, 1.25, 2.0, 7.5, 100.0, 5000.0, 1e5, 1e9, 1e300}) {
      i128 x = ((i128) 1 << e) + d; if (x < 1) continue;
      if (!H::mine(k++)) continue;
      H::begin("alpha %.3g at %s", a, H::s128(x).c_str()); H::evals++; H::distinct++;
      set_alpha(a); double r = get_alpha_deleglise_rivat(x), l = get_alpha_lmo(x); set_alpha(-1);
      double dr = get_alpha_deleglise_rivat(x), dl = get_alpha_lmo(x);
      double top = (double) O::iroot((u128) x, 6);
      double want = std::max(1.0, std::min(a, top));
      if (r != want || l != want) H::viol("tuning factor %.17g at x = %s is used as %.17g / %.17g, expected %.17g", a, H::s128(x).c_str(), r, l, want);
      if (!(dr >= 1 && dr <= std::max(1.0, top) && dl >= 1 && dl <= std::max(1.0, top))) H::viol("default tuning factors at x = %s are %.17g and %.17g, outside [1, x^(1/6)]", H::s128(x).c_str(), dr, dl);
    }
  }
  // (3) every option at and around its limit, for a grid of tuning factors
  if (H::on("limits")) {
    const char* AL[] = {"1", "1.5", "2", "3.25", "10", "33", "100", "1000", "10000", "0.5", "-7", "1e6", "1e9", ""};
    for (auto& o : OPTS) {
      if (o.narrow) continue;
      for (const char* a : AL) {
        // the limit for this factor: fixed point of x = get_max_x(alpha in use at x)
        double av = *a ? atof(a) : -1;
        auto over = [&](i128 x) { set_alpha(av); double e = get_alpha_deleglise_rivat(x); set_alpha(-1); return x > limit_of(e); };
        i128 lo = 0, hi = (((i128) 1 << 126) - 1) + ((i128) 1 << 126);
        // where a computation starts to be refused (the factor in use grows slower than x)
        if (over(hi)) { while (hi - lo > 1) { i128 m = lo + (hi - lo) / 2; if (over(m)) hi = m; else lo = m; } }
        else { lo = hi; hi = 0; }
        std::vector<std::pair<i128, Out>> t;
        for (int d : {0, 1, 1000}) t.push_back({lo - d, ADMITTED});
        t.push_back({lo / 1000 * 999, ADMITTED}); t.push_back({(i128) 1000000000000000000ll * 1000, ADMITTED}); 
        if (hi) { for (int d : {0, 1, 1000}) t.push_back({hi + d, REFUSED}); i128 top = (((i128) 1 << 126) - 1) + ((i128) 1 << 126); for (i128 b : {hi / 1000 * 1001, hi * 2, (i128) 1 << 110, (i128) 1 << 120, ((i128) 1 << 125) + 12345, (i128) 1 << 126, top}) if (b > hi && !(b < 0)) t.push_back({b, REFUSED}); }
        for (auto& e : t) {
          if (e.first < (i128) 1 << 60) continue;
          if (e.second == ADMITTED && !H::thorough && (k % 3 == 1)) { k++; continue; }
          if (!H::mine(k++)) continue;
          expect(num(e.first), o, a, e.second, e.second == REFUSED ? "x is above the maximum for this tuning factor" : "x is within the maximum for this tuning factor");
        }
        if (H::shard == 0 && o.o[0] == 0) H::sample("alpha \"%s\": largest admitted x = %s", a, num(lo).c_str());
      }
    }
    for (const char* x : {"10^20", "10^25", "10^27", "10^30", "10^31"}) for (int i : {0, 1, 3}) if (H::mine(k++)) expect(x, OPTS[i], "", ADMITTED, "x is within the documented maximum");
    for (int i : {0, 1, 3, 4, 8}) if (H::mine(k++)) expect("10^31", OPTS[i], "1000", ADMITTED, "x is within the documented maximum");
    if (H::mine(k++)) { i128 g = H::p128(get_max_x()); for (int i : {0, 1, 3, 4}) { expect(num(g), OPTS[i], "1", ADMITTED, "x is get_max_x()"); expect(num(g + 1), OPTS[i], "1", REFUSED, "x is get_max_x() + 1"); } }
  }
  // (4) the 63-bit algorithms
  if (H::on("narrow")) {
    i128 m63 = (i128) 1 << 63;
    for (auto& o : OPTS) {
      if (!o.narrow) continue;
      std::vector<i128> bad; for (int b = 63; b < 127; b++) for (int d : {0, 1, 2, 7, 100}) bad.push_back(((i128) 1 << b) + d);
      for (int b = 63; b < 126; b++) for (int d : {1, 2, 7, 100}) bad.push_back(-((i128) 1 << b) - d);
      for (int b = 64; b < 126; b++) for (int d : {1, 2, 7, 100}) { bad.push_back(((i128) 1 << b) - d); bad.push_back(-((i128) 1 << b) + d); }
      for (i128 x : bad) if (H::mine(k++)) { if (!H::thorough && k % 3 && x != m63 && x != -m63 - 1) continue; expect(num(x), o, "", REFUSED, "x does not fit in 63 bits"); }
      for (i128 x : {m63 - 1, m63 - 2, m63 / 2, (i128) 1000000000000000000ll}) if (H::mine(k++)) expect(num(x), o, "", ADMITTED, "x is within the range of the algorithm");
      for (i128 x : {-m63, -m63 + 1, (i128) -1, (i128) -1000000}) if (H::mine(k++)) {
        H::begin("primesum %s %s", num(x).c_str(), o.o); std::string t; Out r = cli({num(x), o.o}, &t); H::evals++; H::distinct++;
        if (r != NUMBER || t != "0\n") H::viol("primesum %s %s: %s \"%s\", expected 0", num(x).c_str(), o.o, ON[r], t.c_str());
      }
    }
    H::sample("the seven 63-bit algorithms at +-2^63 .. +-2^126 and neighbours");
  }
  // (5) 128 bits: numbers that do not fit are refused, negative ones that fit give 0
  if (H::on("wide")) {
    std::vector<std::string> bad, neg;
    for (const char* s : {"2^127", "2^127+1", "2^128", "2^128+2", "2^128+100", "2^129+30", "2^192+30", "2^256+30", "1e39", "1e77", "10^100+7", "340282366920938463463374607431768211466", "170141183460469231731687303715884105728", "0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF0", "0-2^128+10", "0-2^128-10", "0-2^129+100", "2^126*2", "2^64*2^64+9", "2^100*2^100", "1<<127", "3<<126"}) bad.push_back(s);
    for (int e = 39; e < 120; e++) { bad.push_back("1e" + std::to_string(e)); bad.push_back("10^" + std::to_string(e) + "+10"); }
    for (int e = 127; e < 400; e++) bad.push_back("2^" + std::to_string(e) + "+10");
    for (auto& o : OPTS) {
      for (auto& b : bad) if (H::mine(k++)) { if (!H::thorough && k / 8 % 5 && b.size() < 9) continue; expect(b, o, "", REFUSED, "the number does not fit in 128 bits"); }
      if (!o.narrow) for (int b = 1; b < 127; b += H::thorough ? 1 : 7) if (H::mine(k++)) {
        i128 x = -((i128) 1 << b) + 3; if (x > 0) continue; std::string t;
        H::begin("primesum %s %s", num(x).c_str(), o.o); std::vector<std::string> a{num(x)}; if (*o.o) a.push_back(o.o);
        Out r = cli(a, &t); H::evals++; H::distinct++;
        if (r != NUMBER || t != "0\n") H::viol("primesum %s %s: %s \"%s\", expected 0", num(x).c_str(), o.o, ON[r], t.c_str());
      }
    }
  }
  // (6) the library interface throws, and promptly
  if (H::on("api")) {
    for (double a : {-1.0, 1.0, 2.0, 50.0, 1e4}) for (int b = 100; b < 127; b++) for (int d : {-1, 0, 1}) {
      i128 x = b == 126 && d == 1 ? (((i128) 1 << 126) - 1) + ((i128) 1 << 126) : ((i128) 1 << b) + d;
      set_alpha(a); i128 L = limit_of(get_alpha_deleglise_rivat(x)); set_alpha(-1);
      if (x <= L) continue;
      if (!H::mine(k++)) continue;
      H::begin("pi(%s), alpha %g", H::s128(x).c_str(), a); H::evals++; H::distinct++;
      int thrown = 0; set_alpha(a);
      try { pi((int128_t) x, 1); } catch (primesum_error&) { thrown++; }
      try { pi(H::s128(x), 8); } catch (primesum_error&) { thrown++; }
      try { pi_deleglise_rivat((int128_t) x, 3); } catch (primesum_error&) { thrown++; }
      set_alpha(-1);
      if (thrown != 3) H::viol("pi(%s) with tuning factor %g does not throw", H::s128(x).c_str(), a);
    }
  }
  return H::done();
}
