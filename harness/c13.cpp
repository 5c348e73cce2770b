// C13: argument lists through the real main(): one number, or a clean failure.
#include "num.h"
#include "leaves.h"
#include <cstring>
#include <map>
#include <regex>
using namespace primesum;
extern "C" int ps_app_main(int, char**);
enum Kind { NUM, BADNUM, ALG, MOD, TIME, STATUS, ALPHA, BAD, EXIT };
struct Arg { const char* s; Kind k; long long x; double a; };
static const std::vector<Arg> ARGS = {
  {"1000", NUM, 1000}, {"1e3", NUM, 1000}, {"0", NUM, 0}, {"--number=10", NUM, 10}, {"5 + 2*3", NUM, 11}, {"10^6+3", NUM, 1000003}, {"0x20", NUM, 32}, {"1", NUM, 1}, {"7-9", NUM, -2}, {"1<<14", NUM, 16384}, {"=64", NUM, 64},
  {"1e40", BADNUM}, {"12a", BADNUM}, {"5/0", BADNUM}, {"1..2", BADNUM}, {"--number=", BADNUM}, {"--number=x", BADNUM}, {"--number", BADNUM}, {"1 2", BADNUM}, {"2^127", BADNUM}, {"7%0", BADNUM}, {"3+", BADNUM}, {"(7", BADNUM}, {"7)", BADNUM}, {"0x", BADNUM},
  {"-d", ALG, 0}, {"--deleglise_rivat", ALG, 0}, {"--deleglise_rivat_parallel1", ALG, 0}, {"-l", ALG, 0}, {"--lmo", ALG, 0}, {"--lmo1", ALG, 0}, {"--lmo2", ALG, 0}, {"--lmo3", ALG, 0}, {"--lmo4", ALG, 0}, {"--lmo5", ALG, 0}, {"--lmo_parallel1", ALG, 0}, {"--pi", ALG, 0},
  {"--P2", ALG, 1}, {"--S1", ALG, 2}, {"--S2_trivial", ALG, 3}, {"--S2_easy", ALG, 4}, {"--S2_hard", ALG, 5},
  {"-s", STATUS}, {"--status", STATUS}, {"-s3", STATUS}, {"--status=1", STATUS}, {"-s99", STATUS}, {"--time", TIME},
  {"-t1", MOD}, {"-t4", MOD}, {"--threads=2", MOD}, {"--threads=0", MOD}, {"-t999", MOD}, {"--threads=0-5", MOD}, {"-t=3", MOD},
  {"-a2", ALPHA, 0, 2}, {"--alpha=1.5", ALPHA, 0, 1.5}, {"--alpha=0.1", ALPHA, 0, 0.1}, {"--alpha=1e9", ALPHA, 0, 1e9}, {"-a-3", BAD}, {"--alpha=-3", ALPHA, 0, -3},
  {"-t", BAD}, {"--threads", BAD}, {"--threads=x", BAD}, {"--threads=", BAD}, {"-t1e40", BAD}, {"-a", BAD}, {"--alpha", BAD}, {"--alpha=x", BAD}, {"--alpha=", BAD}, {"--foo", BAD}, {"-x", BAD}, {"--", BAD}, {"-", BAD}, {"", BAD}, {"foo", BAD}, {"--S3", BAD}, {"--P3", BAD}, {"--s1", BAD}, {"--lmo_parallel", BAD}, {"--status=x", BAD}, {"-sx", BAD}, {"--S2", BAD}, {"-10", BAD}, {"(1+2)", BAD},
  {"-h", EXIT}, {"--help", EXIT}, {"-v", EXIT}, {"--version", EXIT},
};
static const char* NAMES[] = {"", "P2", "S1|S1_sum", "S2_trivial", "S2_easy", "S2_hard"};
struct Exp { bool fail = false; std::string val; bool time = false, status = false; int part = 0; long long x = 0; };
static std::string value(long long x, int part, double alpha) {
  static std::map<std::tuple<long long, int, double>, std::string> memo;
  auto key = std::make_tuple(x, part, alpha); auto it = memo.find(key); if (it != memo.end()) return it->second;
  u128 v = 0;
  if (x >= 1) {
    if (part == 0) v = O::prime_sum(x);
    else {
      if (alpha > -100) set_alpha(alpha);
      double al = get_alpha_deleglise_rivat(x); set_alpha(-1);
      uint64_t y = (uint64_t) (O::iroot(x, 3) * al);
      auto pr = O::primes_in(2, y); L::Split s = L::naive(x, y);
      v = part == 1 ? L::P2(x, y) : part == 2 ? L::S1(x, y, L::c_of(y), pr).s : part == 3 ? s.trivial : part == 4 ? s.easy : s.hard;
    }
  }
  return memo[key] = H::s128((i128) v);
}
static Exp model(const std::vector<const Arg*>& l) {
  Exp e; int nums = 0; double al = -1000; int part = 0;
  for (auto a : l) switch (a->k) {
    case NUM: nums++; e.x = a->x; break;
    case ALG: part = (int) a->x; break;
    case TIME: e.time = true; break;
    case STATUS: e.time = e.status = true; break;
    case ALPHA: al = a->a; break;
    case MOD: break;
    default: e.fail = true; return e;
  }
  if (nums != 1) { e.fail = true; return e; }
  e.part = part; e.val = value(e.x, part, al);
  return e;
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::string c; for (char ch : s) if (ch == '\n') { v.push_back(c); c.clear(); } else c += ch; if (!c.empty()) v.push_back(c); return v; }
static bool number(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789-") == std::string::npos; }
static bool seconds(const std::string& s) { static const std::regex r("Seconds: [0-9]+\\.[0-9]{3}"); return std::regex_match(s, r); }
static uint64_t okc = 0, failc = 0;
static void run(const std::vector<const Arg*>& l) {
  std::string cmd = "primesum"; for (auto a : l) cmd += std::string(" \"") + a->s + "\"";
  H::begin("%s", cmd.c_str()); H::evals++; H::distinct++;
  Exp e = model(l);
  std::vector<std::string> st{"primesum"}; for (auto a : l) st.push_back(a->s);
  std::vector<char*> av; for (auto& s : st) av.push_back(&s[0]); av.push_back(nullptr);
  auto r = H::run_forked([&] { return ps_app_main((int) st.size(), av.data()); }, 60);
  auto L = lines(r.out);
  std::string why;
  if (!r.exited) why = "ended by a signal";
  else if (e.fail) {
    failc++;
    if (r.code == 0) why = "status 0";
    else if (r.out.empty() && r.err.empty()) why = "no text";
    for (auto& s : L) if (number(s) || s.find(" = ") != std::string::npos) why = "a result is printed";
  } else {
    okc++;
    if (r.code != 0) why = "status " + std::to_string(r.code);
    else if (!e.status) {
      if (L.empty() || L[0] != e.val) why = "the first line is not the requested number";
      else if (L.size() != (e.time ? 2u : 1u)) why = "extra or missing lines";
      else if (e.time && !seconds(L[1])) why = "no time line";
      else if (r.out.back() != '\n') why = "no newline at the end";
    } else {
      // progress: the last lines are the result and the time
      if (L.size() < 2 || !seconds(L.back())) why = "no time line at the end";
      else {
        std::string res = L[L.size() - 2]; bool ok = false; int hits = 0;
        if (e.part == 0 || e.x < 1) { ok = res == e.val; for (auto& s : L) hits += number(s); }
        else { std::regex nm(std::string("(") + NAMES[e.part] + ") = (-?[0-9]+)"); std::smatch m; ok = std::regex_match(res, m, nm) && m[2] == e.val; for (auto& s : L) hits += std::regex_match(s, nm) + number(s); }
        if (!ok) why = "the requested number is not the last result line";
        else if (hits != 1) why = "more than one result line";
      }
    }
  }
  if (!r.err.empty() && !e.fail) why += " (text on standard error)";
  if (!why.empty()) H::viol("%s: %s; expected %s; status %d, output \"%s\" error output \"%s\"", cmd.c_str(), why.c_str(), e.fail ? "a failure without a result" : e.val.c_str(), r.status, r.out.substr(0, 300).c_str(), r.err.substr(0, 200).c_str());
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8); mc::set_clock_alphabet({100});
  uint64_t k = 0; size_t n = ARGS.size();
  auto A = [&](size_t i) { return &ARGS[i]; };
  if (H::on("short")) {
    if (H::mine(k++)) run({});
    for (size_t i = 0; i < n; i++) { if (H::mine(k++)) run({A(i)}); for (size_t j = 0; j < n; j++) if (H::mine(k++)) run({A(i), A(j)}); }
    H::sample("every list of at most two of %zu arguments", n);
  }
  if (H::on("orders")) { // a number with any two options in every order
    const Arg* num[2] = {A(0), A(5)};
    for (int q = 0; q < (H::thorough ? 2 : 1); q++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
      bool both = A(i)->k != BAD && A(j)->k != BAD && A(i)->k != BADNUM && A(j)->k != BADNUM;
      if (!both && !H::thorough && (i + j) % 3) continue;
      for (int p = 0; p < 3; p++) { if (!H::mine(k++)) continue; if (p == 0) run({num[q], A(i), A(j)}); else if (p == 1) run({A(i), num[q], A(j)}); else run({A(i), A(j), num[q]}); }
    }
    H::sample("%s with every pair of arguments in three positions", num[0]->s);
  }
  if (H::on("long")) { // three and four options: last algorithm wins, modifiers commute
    std::vector<const Arg*> R; for (auto& a : ARGS) for (const char* s : {"-l", "--lmo1", "-d", "--P2", "--S1", "--S2_easy", "--S2_hard", "-s", "--time", "-t4", "-a2", "--alpha=1.5", "--pi"}) if (!strcmp(a.s, s)) R.push_back(&a);
    for (auto a : R) for (auto b : R) for (auto c : R) { if (H::mine(k++)) run({a, b, c, A(5)}); if (H::thorough || k % 4 == 0) { if (H::mine(k)) run({a, A(5), b, c}); } if (H::thorough) for (auto d : R) if (H::mine(k++)) run({a, b, A(5), c, d}); }
    H::sample("every sequence of 3 of %zu options before 10^6+3", R.size());
  }
  if (H::on("partial")) { // every partial result for many x and alphas
    for (long long x = 1; x < (H::thorough ? 3000 : 400); x++) for (auto& al : ARGS) {
      if (al.k != ALG || al.x == 0) continue;
      if (!H::mine(k++)) continue;
      std::string xs = std::to_string(x); Arg num{xs.c_str(), NUM, x}; const Arg* t = nullptr; for (auto& a : ARGS) if (!strcmp(a.s, x % 3 == 0 ? "--alpha=1.5" : x % 3 == 1 ? "-t4" : "-s")) t = &a;
      run({&num, &al, t});
    }
    for (long long x : {5000LL, 65536LL, 1000000LL, 3000000LL, 9999991LL}) for (auto& al : ARGS) for (const char* a1 : {"", "-a2", "--alpha=1.5", "--alpha=1e9", "--alpha=0.1"}) {
      if (al.k != ALG) continue; if (!H::mine(k++)) continue;
      std::string xs = std::to_string(x); Arg num{xs.c_str(), NUM, x}; std::vector<const Arg*> l{&al, &num}; for (auto& a : ARGS) if (*a1 && !strcmp(a.s, a1)) l.push_back(&a);
      run(l);
    }
  }
  H::note("lists with a result", okc); H::note("lists to be refused", failc);
  return H::done();
}
