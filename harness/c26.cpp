// C26: argument lists through the real main() of the bundled sieve program: exactly what was asked for, or a clean failure.
#include "sieveo.h"
#include "mcrt.h"
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <regex>
#include <set>
typedef uint64_t u64; typedef __int128 i128;
extern "C" int psv_app_main(int, char**);
typedef std::vector<std::string> L;
enum Opt { COUNT, PRINT, DIST, SIZE, THREADS, NUMBER, NTH, QUIET, TIME, NOSTATUS, EXIT };
static const std::map<std::string, Opt> OPT = {{"-c", COUNT}, {"--count", COUNT}, {"-p", PRINT}, {"--print", PRINT}, {"-d", DIST}, {"--dist", DIST}, {"-s", SIZE}, {"--size", SIZE}, {"-t", THREADS}, {"--threads", THREADS}, {"--number", NUMBER},
  {"-n", NTH}, {"--nthprime", NTH}, {"--nth-prime", NTH}, {"-q", QUIET}, {"--quiet", QUIET}, {"--time", TIME}, {"--no-status", NOSTATUS}, {"-h", EXIT}, {"--help", EXIT}, {"-v", EXIT}, {"--version", EXIT}, {"--cpu-info", EXIT}};
// values of the expressions in use
static const std::map<std::string, i128> VAL = {{"1e3", 1000}, {"10^2", 100}, {"0x64", 100}, {"2^64-1", (i128) ~0ull}, {"2^64", (i128) ~0ull + 1}, {"2^63", (i128) 1 << 63}, {"2^63-1", ((i128) 1 << 63) - 1}, {"7+3*10", 37}, {"1e6", 1000000}, {"5-5", 0}, {"-5", -5}, {"(20)", 20}, {"2^32", (i128) 1 << 32}, {"10^18", 1000000000000000000ll}, {"2^64+100", ((i128) ~0ull) + 101}, {"2^64-30", (i128) ~0ull - 29}, {"1e19", (i128) 10000000000000000000ull}};
static bool value(const std::string& s, i128& v) {
  auto it = VAL.find(s); if (it != VAL.end()) { v = it->second; return true; }
  if (s.empty() || s.size() > 30 || s.find_first_not_of("0123456789") != std::string::npos) return false;
  v = 0; for (char c : s) v = v * 10 + (c - '0'); return true;
}
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool isopt(const std::string& s) { return s.size() >= 2 && s[0] == '-' && (letter(s[1]) || (s.size() >= 3 && s[1] == '-' && letter(s[2]))); }
struct Exp { bool fail = false, skip = false, exit0 = false, nth = false, quiet = false, time = false, status = true; int counts = 0, prints = 0; int size = 0, threads = 0; bool sized = false; std::vector<u64> nums; u64 lo = 0, hi = 0, np = 0; i128 dist = -1; };
static Exp model(const L& a) {
  Exp e; bool ndist = false;
  if (a.empty()) { e.fail = true; return e; }
  for (size_t i = 0; i < a.size(); i++) {
    std::string s = a[i], o, val; bool has = false;
    if (isopt(s)) {
      if (OPT.count(s)) {
        o = s; Opt k = OPT.at(o);
        if (k == DIST || k == SIZE || k == THREADS || k == NUMBER) { if (i + 1 >= a.size() || a[i+1].empty() || isopt(a[i+1])) { e.fail = true; return e; } val = a[++i]; has = true; }
        else if ((k == COUNT || k == PRINT) && i + 1 < a.size() && !a[i+1].empty() && !isopt(a[i+1])) { val = a[++i]; has = true; }
      } else {
        size_t p = s.find('='); if (p != std::string::npos) { o = s.substr(0, p); val = s.substr(p + 1); } else { p = s.find_first_of("0123456789"); if (p == std::string::npos) { e.fail = true; return e; } o = s.substr(0, p); val = s.substr(p); }
        if (!OPT.count(o)) { e.fail = true; return e; }
        Opt k = OPT.at(o); has = !val.empty();
        if (!has && (k == DIST || k == SIZE || k == THREADS || k == NUMBER)) { e.fail = true; return e; }
        if (has && !(k == DIST || k == SIZE || k == THREADS || k == NUMBER || k == COUNT || k == PRINT)) { e.skip = true; return e; } // a value for an option without one: not specified
      }
    } else { o = "--number"; val = s; has = true; if (s.empty() || s[0] == '-' ) { e.fail = true; return e; } }
    i128 v = 0; bool ok = !has || value(val, v);
    if (!ok) { e.fail = true; return e; }
    switch (OPT.at(o)) {
      case NUMBER: if (v < 0 || v > (i128) ~0ull) { e.fail = true; return e; } e.nums.push_back((u64) v); break;
      case DIST: if (v < 0 || v > (i128) ~0ull) { e.fail = true; return e; } if (ndist) e.skip = true; ndist = true; e.dist = v; break;
      case SIZE: case THREADS: if (v < INT32_MIN || v > INT32_MAX) { e.fail = true; return e; } if (OPT.at(o) == SIZE) { e.size = (int) v; } else e.threads = (int) v; break;
      case COUNT: { if (!has) v = 1; if (v > INT32_MAX || v < INT32_MIN) { e.fail = true; return e; } if (v <= 0) { e.skip = true; return e; } for (; v; v /= 10) { int d = (int) (v % 10); if (d < 1 || d > 6) { e.fail = true; return e; } e.counts |= 1 << (d - 1); } break; }
      case PRINT: if (!has) v = 1; if (v < 1 || v > 6) { e.fail = true; return e; } e.prints |= 1 << ((int) v - 1); e.quiet = true; break;
      case NTH: e.nth = true; break;
      case QUIET: e.quiet = true; break;
      case TIME: e.time = true; break;
      case NOSTATUS: e.status = false; break;
      case EXIT: e.exit0 = true; return e;
    }
  }
  if (e.skip) return e;
  if (e.nums.empty() && !ndist) { e.fail = true; return e; }
  if (e.quiet) e.status = false; else e.time = true;
  if (e.nums.size() > 2 || (ndist && e.nums.size() > 1) || (e.nth && (ndist || e.counts || e.prints)) || __builtin_popcount(e.prints & ~1) > 1) { e.skip = true; return e; } // not specified
  if (ndist) { e.lo = e.nums.empty() ? 0 : e.nums[0]; if ((i128) e.lo + e.dist > (i128) ~0ull) { e.fail = true; return e; } e.hi = e.lo + (u64) e.dist; }
  else if (e.nth) {
    u64 n = e.nums[0], s = e.nums.size() > 1 ? e.nums[1] : 0; if (n == 0) { e.skip = true; return e; } // C19
    if (n > 430000000000000000ull) e.fail = true; // more than there are below 2^64
    else { if (n > 100000) { e.skip = true; return e; } u64 p = s; for (u64 k = 0; k < n; k++) { p = O::next_prime(p); if (!p) break; } if (!p) e.fail = true; e.np = p; }
  }
  else { e.lo = e.nums.size() > 1 ? e.nums[0] : 0; e.hi = e.nums.back(); }
  if (!e.nth && !e.fail && e.hi > e.lo && e.hi - e.lo > 3000000) e.skip = true; // too long
  if (!e.counts && !e.prints) e.counts = 1;
  return e;
}
static const SO::Tab& tab(u64 lo, u64 hi) {
  static SO::Tab low(0, 20100), mid(0, 1000100); if (hi <= 20000) return low; if (hi <= 1000000) return mid;
  static std::map<std::pair<u64, u64>, std::unique_ptr<SO::Tab>> m; auto& t = m[{lo, hi}]; if (!t) { if (m.size() > 6) m.clear(); m[{lo, hi}].reset(new SO::Tab(lo, hi == ~0ull ? hi - 1 : hi)); return *m[{lo, hi}]; } return *t;
}
static const char* T[6] = {"Primes: ", "Twin primes: ", "Prime triplets: ", "Prime quadruplets: ", "Prime quintuplets: ", "Prime sextuplets: "};
static u64 okc, failc, skipc;
static bool take(std::string& s, const std::string& re) { std::smatch m; if (!std::regex_search(s, m, std::regex("^" + re))) return false; s = m.suffix(); return true; }
static std::string line(std::string& s) { size_t z = s.find('\n'); std::string r = s.substr(0, z); s = z == std::string::npos ? "" : s.substr(z + 1); return z == std::string::npos ? r + "(no line end)" : r; }
static void run(const L& a) {
  Exp e = model(a);
  std::string cmd = "primesieve"; for (auto& s : a) cmd += " \"" + s + "\"";
  H::begin("%s", cmd.c_str());
  if (e.skip) { skipc++; return; }
  H::evals++; H::distinct++;
  L st{"primesieve"}; for (auto& s : a) st.push_back(s);
  auto r = H::run_forked([&] { std::vector<char*> av; for (auto& s : st) av.push_back(&s[0]); av.push_back(nullptr); return psv_app_main((int) st.size(), av.data()); }, 60);
  std::string why, want, o = r.out;
  if (!r.exited) why = r.timeout ? "does not end" : "ended by a signal";
  else if (e.fail || e.exit0) {
    failc++; want = e.fail ? "a failure without a result" : "a text and status 0";
    if (e.fail ? r.code == 0 : r.code != 0) why = "status " + std::to_string(r.code);
    else if (r.out.empty() && r.err.empty()) why = "no text";
    else if (e.exit0 && r.out.empty()) why = "no text on standard output";
    else if (e.exit0 && !r.err.empty()) why = "text on standard error";
    for (std::string q = o; !q.empty();) { std::string l = line(q); bool res = !l.empty() && l.find_first_not_of("0123456789") == std::string::npos; for (auto t : T) res = res || l.compare(0, strlen(t), t) == 0; if (res || l.compare(0, 10, "Nth prime:") == 0) why = "a result is printed"; }
  } else {
    okc++;
    auto fails = [&](const std::string& s) { if (why.empty()) why = s; };
    if (r.code) fails("status " + std::to_string(r.code));
    if (!r.err.empty()) fails("text on standard error");
    if (!e.quiet) {
      std::string l = line(o); int sz = atoi(l.c_str() + std::min(l.size(), (size_t) 13)); int want_sz = std::min(4096, std::max(8, e.size)), p2 = 1; while (p2 * 2 <= want_sz) p2 *= 2;
      if (l != "Sieve size = " + std::to_string(sz) + " KiB" || (e.size && sz != p2) || sz < 8 || sz > 4096 || (sz & (sz - 1))) fails("wrong line for the sieve size");
      l = line(o); int th = atoi(l.c_str() + std::min(l.size(), (size_t) 10)); if (l != "Threads = " + std::to_string(th) || th < 1 || (e.threads && th > std::max(1, e.threads))) fails("wrong line for the threads");
    }
    if (e.status && !e.nth && e.lo <= e.hi) {
      int last = -1; bool end = false;
      while (!end && !o.empty() && o[0] == '\r') {
        size_t z = o.find('%'); int p = z == std::string::npos ? -1 : atoi(o.c_str() + 1);
        if (p <= last || p > 100 || o.substr(1, z - 1) != std::to_string(p)) { fails("progress falls, leaves 0..100 or is garbled"); break; }
        last = p; o = o.substr(z + 1); if (p == 100) { if (o.empty() || o[0] != '\n') fails("no line end after 100%"); else o = o.substr(1); end = true; }
      }
      if (!end) fails("progress does not end at 100%");
    } else if (o.find('\r') != std::string::npos) fails("progress without being asked for");
    if (!e.nth) {
      const SO::Tab& t = tab(e.lo, std::max(e.lo, e.hi));
      std::multiset<std::string> w; int kinds = 0; std::string exact;
      for (int k = 0; k < 6; k++) if (e.prints >> k & 1 && e.lo <= e.hi) { kinds++;
        if (k == 0) { for (u64 p : t.p) if (p >= e.lo && p <= e.hi) { exact += std::to_string(p) + "\n"; w.insert(std::to_string(p)); } }
        else for (auto& q : t.tup[k]) if (q.first >= e.lo && q.last <= e.hi) { std::string s = "("; for (size_t i = 0; i < q.m.size(); i++) s += std::to_string(q.m[i]) + (i + 1 < q.m.size() ? ", " : ")"); exact += s + "\n"; w.insert(s); } }
      if (kinds == 1) { if (o.compare(0, exact.size(), exact)) fails("wrong " + std::string("printed items")); else o = o.substr(exact.size()); }
      else { size_t n = w.size(); for (size_t i = 0; i < n; i++) { auto it = w.find(line(o)); if (it == w.end()) { fails("wrong printed items"); break; } w.erase(it); } }
      if (e.time && !take(o, "Seconds: [0-9]+\\.[0-9]{3}\n")) fails("no time line");
      for (int k = 0; k < 6; k++) if (e.counts >> k & 1) want += T[k] + std::to_string(t.count(k, e.lo, e.hi)) + "\n";
    } else { if (e.time && !take(o, "Seconds: [0-9]+\\.[0-9]{3}\n")) fails("no time line"); want = "Nth prime: " + std::to_string(e.np) + "\n"; }
    if (o != want) fails("the result lines differ");
  }
  if (!why.empty()) H::viol("%s: %s; expected %s; status %d, output '%s' error output '%s'", cmd.c_str(), why.c_str(), want.c_str(), r.status, r.out.substr(0, 300).c_str(), r.err.substr(0, 200).c_str());
}
static L cat(std::initializer_list<L> l) { L r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
int main(int argc, char** argv) {
  H::init(argc, argv); tab(0, 100);
  u64 k = 0; auto go = [&](const L& a) { if (H::mine(k++)) run(a); };
  const L A = {"0", "1", "2", "7", "10", "100", "1e3", "10^2", "0x64", "7+3*10", "(20)", "5-5", "--number=30", "--number",
    "2^64", "2^64+100", "12a", "5/0", "1 2", "5+", "-5", "", "-", "--", "foo", "-x", "--foo", "--foo=3", "--number=", "--number=x",
    "-c", "-c1", "-c2", "-c26", "--count", "--count=3", "--count=654321", "-c7", "-c0x", "--count=19", "-c=4", "--count=",
    "-p", "-p1", "-p2", "--print", "--print=3", "-p6", "-p7", "-p0", "--print=x", "-p2^32",
    "-d", "-d20", "--dist=100", "--dist", "-d=5", "-dx", "--dist=", "-d2^64", "-d2^64-1",
    "-n", "--nthprime", "--nth-prime", "-q", "--quiet", "--time", "--no-status",
    "-s", "-s8", "-s1", "--size=16", "-s5000", "-s100", "--size=", "-sx", "-s2^32", "-t", "-t1", "-t4", "--threads=3", "-t999", "-t0", "--threads=-5", "-tx", "-t2^32", "--threads",
    "-h", "--help", "-v", "--version", "--cpu-info"};
  const L R = {"-c", "-c2", "--count=135", "-p", "-p2", "--print=3", "-d20", "--dist=1e3", "-n", "-q", "--time", "--no-status", "-s8", "--size=64", "-t1", "-t4", "100", "1e3"};
  size_t n = A.size();
  if (H::on("short")) { go({}); for (auto& a : A) { go({a}); for (auto& b : A) go({a, b}); } H::sample("every list of at most two of %zu arguments", n); }
  if (H::on("orders")) { // one or two numbers with any two options, in several orders
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
      const std::string &a = A[i], &b = A[j]; if (!H::thorough && (i * 7 + j) % 3) continue;
      go({"97", a, b}); go({a, "97", b}); go({a, b, "97"}); go({"3", "1e3", a, b}); go({a, "3", "1e3", b}); go({a, "3", b, "1e3"}); if (H::thorough) { go({a, b, "3", "1e3"}); go({"3", a, b, "1e3"}); go({"3", a, "1e3", b}); }
    }
    H::sample("one or two numbers with pairs of arguments in six positions");
  }
  if (H::on("long")) { // three and four options
    for (auto& a : R) for (auto& b : R) for (auto& c : R) { go({"5", a, b, c}); if (k % 3 == 0 || H::thorough) { go({a, b, "13", c, "400"}); } if (H::thorough) for (auto& d : R) { go({a, "200", b, c, d}); } }
    H::sample("every sequence of three of %zu options with numbers", R.size());
  }
  if (H::on("intervals")) { // every small interval and structural ones with every result option
    const std::vector<L> O = {{"-q"}, {"-c2"}, {"--count=123456", "-q"}, {"-p"}, {"-p2", "-c"}, {"-p3", "-p1"}, {"--print=4", "--time", "-c4"}, {"-p5", "-t4"}, {"-p6"}, {"-t4", "-s8"}, {"--no-status", "-c36"}};
    for (u64 lo = 0; lo <= 24; lo++) for (u64 hi = 0; hi <= (H::thorough ? 60 : 26); hi++) { auto& o = O[(lo * 5 + hi * 3) % O.size()]; std::string s = std::to_string(lo), t = std::to_string(hi); go(cat({{s, t}, o})); if (lo % 4 == hi % 4 || H::thorough) for (auto& p : O) go(cat({p, {s, t}})); if (!lo) for (auto& p : O) { go(cat({{t}, p})); go(cat({p, {"--number", t}})); } go(cat({o, {"-d" + t, s}})); go(cat({{s}, o, {"--dist", t}})); }
    for (auto& q : std::vector<std::pair<std::string, std::string>>{{"0", "3000000"}, {"1000000", "3000000"}, {"10000000000", "10002000000"}, {"2^64-30", "2^64-1"}, {"18446744073709000000", "18446744073709551614"}, {"2^64-1", "2^64-1"}, {"2^64-1", "0"}, {"10^18", "10^18"}, {"999999999999000000", "10^18"}, {"2^63-1", "2^63"}, {"2^63", "100"}}) for (auto& p : O) { if (!H::thorough && q.first.size() > 3 && q.second.size() > 3 && (q.first[0] != '1' || q.first.size() > 18) && &p != &O[2] && &p != &O[3]) continue; go(cat({{q.first, q.second}, p})); go(cat({p, {"--number=" + q.first}, {"--number=" + q.second}})); }
    for (auto& q : std::vector<std::pair<std::string, std::string>>{{"2^64-30", "29"}, {"2^64-30", "30"}, {"2^64-1", "0"}, {"2^64-1", "1"}, {"10^18", "1000"}, {"10^18", "2^64-1"}, {"1e6", "1e6"}}) for (auto& p : O) { if (!H::thorough && q.first[0] == '2' && &p != &O[1] && &p != &O[4]) continue; go(cat({{q.first, "-d" + q.second}, p})); go(cat({{"--dist=" + q.second, q.first}, p})); }
    H::sample("every interval below 26 and structural ones with eleven sets of options, with distances before and after the start");
  }
  if (H::on("nth")) {
    const std::vector<L> O = {{"-n", "-q"}, {"--nthprime"}, {"--nth-prime", "-t4", "--time", "-q"}, {"-n", "-s8", "--no-status"}};
    for (auto& p : O) { for (u64 m : {1, 2, 3, 4, 10, 100, 1000, 10000}) for (const char* s : {"0", "1", "2", "3", "7", "100", "1e6", "10^18", "1e19", "2^63"}) { std::string t = std::to_string(m); if ((m > 100 || (!H::thorough && &p != &O[m % 4])) && strlen(s) > 3) continue; go(cat({{t, s}, p})); go(cat({p, {t, s}})); if (*s == '0') go(cat({p, {t}})); }
      for (const char* m : {"10^18", "2^63-1"}) for (const char* s : {"2^64-30", "2^64-1"}) go(cat({{m, s}, p})); // from a lower start the search takes years
      for (const char* m : {"2^63", "1e19", "2^64-30", "2^64-1", "2^64"}) { go(cat({{m}, p})); for (const char* s : {"0", "1", "100", "1e3", "10^18", "2^63", "2^64-1"}) go(cat({{m, s}, p})); }
      if (H::thorough || &p == &O[0]) for (const char* s : {"2^64-30", "2^64-1", "18446744073709551556", "18446744073709551557", "18446744073709551532", "18446744073709551533"}) for (const char* m : {"1", "2", "3"}) go(cat({p, {m, s}})); }
    H::sample("n up to 10000 from ten starts, and n and starts beyond the range");
  }
  if (H::on("threads")) { // built so that short intervals are cut into chunks: several threads work, in three orders
    mc::set_max_threads(8);
    for (int base = 0; base < 3; base++) {
      mc::set_base((mc::Base) base);
      const std::vector<L> O = {{}, {"-q"}, {"-c2"}, {"--count=123456", "-q"}, {"-p"}, {"-p2", "-c"}, {"-p3", "-p1"}, {"--print=4", "-c4"}, {"-p5", "--time"}, {"-p6", "-c6"}, {"--no-status", "-c36"}};
      for (u64 lo : {0, 5, 7, 97, 1000, 1000000}) for (u64 d : {0, 60, 200, 333, 431, 999, 2500, 10000, 300000}) for (const char* t : {"", "-t1", "-t2", "-t3", "-t5", "-t8"}) for (auto& o : O) { L l{std::to_string(lo), "-d" + std::to_string(d)}; if (*t) l.push_back(t); if (d > 1000) l.push_back("-s8"); go(cat({l, o})); }
      for (const char* m : {"1", "100", "1000", "20000"}) for (const char* st : {"0", "100", "1e6"}) for (const char* t : {"", "-t2", "-t3", "-t8"}) for (const char* q : {"-q", "-s8"}) { L l{m, st, "-n", q}; if (*t) l.push_back(t); go(l); }
    }
    H::sample("intervals up to 300000 with 11 sets of options by 1 to 8 threads, three base schedules");
  }
  H::note("lists with a result", okc); H::note("lists to be refused or with a text only", failc); H::note("lists left out because their meaning is not documented", skipc);
  return H::done();
}
