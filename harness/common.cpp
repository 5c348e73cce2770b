#include "common.h"
#include "mcrt.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace H {
int shard = 0, shards = 1; bool thorough = false;
uint64_t evals = 0, distinct = 0, states = 0, transitions = 0, traces = 0;
bool exhaustive = true;
static std::map<std::string, std::string> opts;
static std::string families;
static char* marker = nullptr; static char marker_buf[1024];
static volatile uint64_t case_no = 0;
static FILE* out = nullptr;
static long viols = 0, max_viols = 3;
static std::vector<std::string> samples;
static std::map<std::string, uint64_t> notes;
static double t0, budget = 1e18, hang_cpu = 100;
static double now() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static double cpu() { timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
double elapsed() { return now() - t0; }
bool time_left() { if (elapsed() < budget) return true; exhaustive = false; return false; }
std::string opt(const char* n, const char* d) { auto it = opts.find(n); return it == opts.end() ? d : it->second; }
bool mine(uint64_t k) { return (int) (k % (uint64_t) shards) == shard; }
bool on(const char* f) {
  if (families.empty()) return true;
  return ("," + families + ",").find("," + std::string(f) + ",") != std::string::npos;
}
static std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static void put_done() {
  fprintf(out, "{\"t\":\"done\",\"evals\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"exhaustive\":%s,\"viols\":%ld,\"samples\":[",
    (unsigned long long) evals, (unsigned long long) distinct, (unsigned long long) states, (unsigned long long) transitions, (unsigned long long) traces, exhaustive ? "true" : "false", viols);
  for (size_t i = 0; i < samples.size(); i++) fprintf(out, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
  fprintf(out, "],\"notes\":{");
  bool first = true;
  for (auto& n : notes) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", esc(n.first).c_str(), (unsigned long long) n.second); first = false; }
  fprintf(out, "}}\n"); fflush(out);
}
static void watchdog(int) {
  static uint64_t last = ~0ull; static double since = 0;
  double c = cpu();
  if (case_no != last) { last = case_no; since = c; return; }
  if (c - since > hang_cpu) {
    fprintf(out, "{\"t\":\"viol\",\"what\":\"no termination within %.0f s of CPU time: %s\"}\n", hang_cpu, esc(marker).c_str());
    viols++; put_done(); _exit(0);
  }
}
static void on_fatal(const std::string& w) {
  fprintf(out, "{\"t\":\"viol\",\"what\":\"%s: %s; schedule [%s]\"}\n", esc(w).c_str(), esc(marker).c_str(), mc::current_choices().c_str());
  viols++; put_done(); _exit(0);
}
void init(int argc, char** argv) {
  t0 = now();
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0) { size_t e = a.find('='); opts[a.substr(2, e == std::string::npos ? std::string::npos : e - 2)] = e == std::string::npos ? "1" : a.substr(e + 1); }
  }
  int fd = atoi(opt("out", "1").c_str());
  out = fdopen(fd == 1 ? dup(1) : fd, "w");
  if (fd != 1 && opt("keep-stdout", "0") == "0") { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
  shard = atoi(opt("shard", "0").c_str()); shards = atoi(opt("shards", "1").c_str());
  thorough = opt("tier", "quick") == "thorough";
  families = opt("families", "");
  budget = atof(opt("budget", "1e18").c_str());
  hang_cpu = atof(opt("hang", thorough ? "1500" : "100").c_str());
  marker = marker_buf;
  std::string mf = opt("marker", "");
  if (!mf.empty()) {
    int m = open(mf.c_str(), O_RDWR | O_CREAT, 0600);
    if (m >= 0 && ftruncate(m, 1024) == 0) { void* p = mmap(nullptr, 1024, PROT_READ | PROT_WRITE, MAP_SHARED, m, 0); if (p != MAP_FAILED) marker = (char*) p; }
  }
  std::string an = opt("anchors", "");
  if (!an.empty()) O::load_anchors(an.c_str());
  long as = atol(opt("as-gb", "0").c_str());
  if (as) { rlimit r; r.rlim_cur = r.rlim_max = (rlim_t) as << 30; setrlimit(RLIMIT_AS, &r); }
  mc::fatal_hook = on_fatal;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = watchdog; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
  itimerval it; it.it_interval.tv_sec = 2; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
}
void begin(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(marker, 1000, f, a); va_end(a); uint64_t n = ++case_no; memcpy(marker + 1008, &n, 8); }
long nviol() { return viols; }
void viol(const char* f, ...) {
  char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  fprintf(out, "{\"t\":\"viol\",\"what\":\"%s\"}\n", esc(b).c_str()); fflush(out);
  if (++viols >= max_viols) { put_done(); _exit(0); }
}
void sample(const char* f, ...) {
  if (samples.size() >= 6) return;
  char b[1000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  samples.push_back(b);
}
void note(const char* k, uint64_t n) { notes[k] += n; }
int done() { put_done(); _exit(0); }
std::string s128(i128 v) {
  if (v == 0) return "0";
  bool neg = v < 0; u128 u = neg ? (u128) 0 - (u128) v : (u128) v;
  std::string s; while (u) { s += (char) ('0' + (int) (u % 10)); u /= 10; }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end()); return s;
}
i128 p128(const std::string& s) { i128 v = 0; size_t i = 0; bool n = s[0] == '-'; if (n) i++; for (; i < s.size(); i++) v = v * 10 + (s[i] - '0'); return n ? -v : v; }
std::string capture(const std::function<void()>& fn) {
  fflush(stdout);
  int m = memfd_create("cap", 0); int save = dup(1); dup2(m, 1);
  fn();
  fflush(stdout);
  dup2(save, 1); close(save);
  off_t n = lseek(m, 0, SEEK_END); std::string s((size_t) n, 0);
  if (n && pread(m, &s[0], (size_t) n, 0) != n) s = "?";
  close(m); return s;
}
Proc run_forked(const std::function<int()>& fn, double lim) {
  Proc p{}; fflush(out); fflush(stdout);
  int o = memfd_create("o", 0), e = memfd_create("e", 0);
  pid_t pid = fork();
  if (pid == 0) {
    itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, nullptr);
    dup2(o, 1); dup2(e, 2);
    int z0 = open("/dev/null", O_RDONLY); dup2(z0, 0);
    rlimit r; r.rlim_cur = (rlim_t) std::ceil(lim); r.rlim_max = r.rlim_cur + 1; setrlimit(RLIMIT_CPU, &r);
    itimerval w; memset(&w, 0, sizeof w); w.it_value.tv_sec = (time_t) std::ceil(lim) * 4 + 20; setitimer(ITIMER_REAL, &w, nullptr); // stuck without using the processor
    int rc = fn();
    exit(rc);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0) {}
  p.status = st; p.exited = WIFEXITED(st); p.code = WEXITSTATUS(st); p.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; p.timeout = p.sig == SIGXCPU || p.sig == SIGKILL || p.sig == SIGALRM;
  auto rd = [](int f) { off_t n = lseek(f, 0, SEEK_END); std::string s((size_t) n, 0); if (n && pread(f, &s[0], (size_t) n, 0) != n) s = "?"; close(f); return s; };
  p.out = rd(o); p.err = rd(e);
  return p;
}
}

namespace O {
static const uint32_t SP = 1u << 20;
const std::vector<uint32_t>& small_primes() {
  static std::vector<uint32_t> v;
  if (v.empty()) {
    std::vector<bool> c(SP, false);
    for (uint32_t i = 2; i < SP; i++) { if (c[i]) continue; v.push_back(i); for (uint64_t j = (uint64_t) i * i; j < SP; j += i) c[j] = true; }
  }
  return v;
}
static uint64_t mulmod(uint64_t a, uint64_t b, uint64_t m) { return (uint64_t) ((u128) a * b % m); }
static uint64_t powmod(uint64_t a, uint64_t e, uint64_t m) { uint64_t r = 1; a %= m; while (e) { if (e & 1) r = mulmod(r, a, m); a = mulmod(a, a, m); e >>= 1; } return r; }
bool is_prime(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n == p) return true; if (n % p == 0) return false; }
  uint64_t d = n - 1; int s = 0; while (!(d & 1)) { d >>= 1; s++; }
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    uint64_t x = powmod(a, d, n); if (x == 1 || x == n - 1) continue;
    bool ok = false; for (int i = 1; i < s; i++) { x = mulmod(x, x, n); if (x == n - 1) { ok = true; break; } }
    if (!ok) return false;
  }
  return true;
}
uint64_t isqrt(u128 n) { uint64_t lo = 0, hi = ~0ull; while (lo < hi) { uint64_t m = lo + (hi - lo) / 2 + 1; if ((u128) m * m <= n) lo = m; else hi = m - 1; } return lo; }
uint64_t iroot(u128 n, int k) {
  uint64_t lo = 0, hi = ~0ull;
  while (lo < hi) {
    uint64_t m = lo + (hi - lo) / 2 + 1; u128 p = 1; bool over = false;
    for (int i = 0; i < k; i++) { if (p > n / m) { over = true; break; } p *= m; }
    if (!over && p <= n) lo = m; else hi = m - 1;
  }
  return lo;
}
std::vector<uint64_t> primes_in(uint64_t lo, uint64_t hi) {
  std::vector<uint64_t> r;
  if (lo < 2) lo = 2;
  if (hi < lo) return r;
  uint64_t root = isqrt(hi);
  if (root >= SP && hi - lo < 200000) { // few numbers: test each, after dividing out small primes by sieving
    std::vector<char> c(hi - lo + 1, 0);
    for (uint32_t p : small_primes()) { if (p > 5000) break; u128 s = ((u128) (lo + (u128) 0) + p - 1) / p * p; if (s < (u128) p * p) s = (u128) p * p; for (; s <= hi; s += p) c[(size_t) (s - lo)] = 1; }
    for (uint64_t i = 0; i <= hi - lo; i++) if (!c[i] && is_prime(lo + i)) r.push_back(lo + i);
    return r;
  }
  std::vector<uint64_t> base;
  if (root < SP) { for (uint32_t p : small_primes()) { if (p > root) break; base.push_back(p); } }
  else base = primes_in(2, root);
  const uint64_t W = 1 << 18;
  for (uint64_t s = lo;;) {
    uint64_t e = hi - s < W ? hi : s + W - 1;
    std::vector<char> c(e - s + 1, 0);
    for (uint64_t p : base) { if ((u128) p * p > e) break; u128 m = ((u128) s + p - 1) / p * p; if (m < (u128) p * p) m = (u128) p * p; for (; m <= e; m += p) c[(size_t) (m - s)] = 1; }
    for (uint64_t i = 0; i <= e - s; i++) if (!c[i]) r.push_back(s + i);
    if (e == hi) break;
    s = e + 1;
  }
  return r;
}
uint64_t count_in(uint64_t lo, uint64_t hi) { return primes_in(lo, hi).size(); }
uint64_t next_prime(uint64_t n) { if (n < 2) return 2; for (uint64_t m = n + 1; m; m++) if (is_prime(m)) return m; return 0; }
uint64_t prev_prime(uint64_t n) { if (n <= 2) return 0; for (uint64_t m = n - 1; m >= 2; m--) if (is_prime(m)) return m; return 0; }
static std::vector<uint32_t> tp; static std::vector<uint64_t> ts;
static void tab(uint64_t need) {
  static uint64_t have = 0;
  if (have > need) return;
  uint64_t n = std::max<uint64_t>(1 << 22, need + need / 4 + 1); 
  auto p = primes_in(2, n); tp.clear(); ts.assign(1, 0); tp.reserve(p.size());
  for (uint64_t q : p) { tp.push_back((uint32_t) q); ts.push_back(ts.back() + q); }
  have = n;
}
uint64_t pi_small(uint64_t x) { tab(x); return std::upper_bound(tp.begin(), tp.end(), (uint32_t) x) - tp.begin(); }
u128 prime_sum_small(uint64_t x) { return ts[pi_small(x) + 0 * ts.size()]; }
// Lucy_Hedgehog
template <class T> static T lucy(uint64_t x, bool sum) {
  if (x < 2) return 0;
  uint64_t r = isqrt(x);
  std::vector<T> lo(r + 1), hi(r + 2);
  auto tri = [&](uint64_t n) -> T { return sum ? (T) ((u128) n * ((u128) n + 1) / 2 - 1) : (T) (n - 1); };
  for (uint64_t i = 1; i <= r; i++) { lo[i] = tri(i); hi[i] = tri(x / i); }
  for (uint64_t p = 2; p <= r; p++) {
    if (lo[p] == lo[p-1]) continue;
    T sp = lo[p-1]; uint64_t p2 = p * p; T f = sum ? (T) p : (T) 1;
    uint64_t end = std::min(r, x / p2);
    uint64_t e1 = std::min(end, r / p);
    for (uint64_t i = 1; i <= e1; i++) hi[i] -= f * (hi[i * p] - sp);
    uint64_t xp = x / p;
    for (uint64_t i = e1 + 1; i <= end; i++) hi[i] -= f * (lo[xp / i] - sp);
    for (uint64_t i = r; i >= p2; i--) lo[i] -= f * (lo[i / p] - sp);
  }
  return hi[1];
}
u128 lucy_sum(uint64_t x) { return lucy<u128>(x, true); }
uint64_t lucy_count(uint64_t x) { return lucy<uint64_t>(x, false); }
static std::map<uint64_t, u128> anchors; static std::vector<uint64_t> akeys;
void load_anchors(const char* path) {
  FILE* f = fopen(path, "r"); if (!f) { fprintf(stderr, "no anchors %s\n", path); _exit(70); }
  char a[64], b[64];
  while (fscanf(f, "%60s %60s", a, b) == 2) anchors[strtoull(a, 0, 10)] = (u128) H::p128(b);
  fclose(f);
  for (auto& k : anchors) akeys.push_back(k.first);
}
bool anchor(uint64_t x, u128& s) { auto it = anchors.find(x); if (it == anchors.end()) return false; s = it->second; return true; }
const std::vector<uint64_t>& anchor_keys() { return akeys; }
u128 prime_sum(uint64_t x) {
  if (x < (1ull << 24)) return prime_sum_small(x);
  auto it = anchors.lower_bound(x); uint64_t best = 0; uint64_t bd = ~0ull;
  if (it != anchors.end()) { best = it->first; bd = best - x; }
  if (it != anchors.begin()) { --it; if (x - it->first < bd) { best = it->first; bd = x - best; } }
  if (bd <= 3000000) {
    u128 s = anchors[best];
    if (best < x) for (uint64_t p : primes_in(best + 1, x)) s += p;
    else if (best > x) for (uint64_t p : primes_in(x + 1, best)) s -= p;
    return s;
  }
  static std::map<uint64_t, u128> memo;
  auto m = memo.find(x); if (m != memo.end()) return m->second;
  // nearby results of this run serve as anchors too
  auto mi = memo.lower_bound(x); 
  uint64_t nb = 0; uint64_t nd = ~0ull;
  if (mi != memo.end()) { nb = mi->first; nd = nb - x; }
  if (mi != memo.begin()) { --mi; if (x - mi->first < nd) { nb = mi->first; nd = x - nb; } }
  u128 s;
  if (nd <= 3000000) { s = memo[nb]; if (nb < x) for (uint64_t p : primes_in(nb + 1, x)) s += p; else for (uint64_t p : primes_in(x + 1, nb)) s -= p; }
  else s = lucy_sum(x);
  memo[x] = s; return s;
}
std::vector<uint64_t> structured(uint64_t max, int dense) {
  std::set<uint64_t> s;
  auto add = [&](u128 c, int w) { for (int d = -w; d <= w; d++) { i128 v = (i128) c + d; if (v >= 0 && v <= (i128) max) s.insert((uint64_t) v); } };
  int w = dense;
  for (int b = 1; b < 64; b++) { add((u128) 1 << b, w); add(((u128) 1 << b) * 3 / 2, 1); }
  u128 t = 1; for (int i = 0; i < 19; i++) { for (int m : {1, 2, 3, 5, 7}) add(t * m, m == 1 ? w : 1); t *= 10; }
  // squares, cubes, fourth and sixth powers of primes and of neighbours
  uint64_t r2 = isqrt(max), r3 = iroot(max, 3), r6 = iroot(max, 6);
  auto thin = [&](uint64_t root, std::vector<uint64_t>& v) {
    uint64_t p = 2; double step = 1; 
    while (p && p <= root) { v.push_back(p); step *= dense > 2 ? 1.12 : 1.5; p = next_prime(p + (uint64_t) (step - 1)); }
    uint64_t q = prev_prime(root + 1); if (q) v.push_back(q);
  };
  std::vector<uint64_t> a; thin(r2, a); for (uint64_t p : a) add((u128) p * p, w > 2 ? 2 : 1);
  a.clear(); thin(r3, a); for (uint64_t p : a) { add((u128) p * p * p, w > 2 ? 2 : 1); uint64_t q = next_prime(p); add((u128) p * p * q, 1); add((u128) p * q, 1); }
  a.clear(); thin(r6, a); for (uint64_t p : a) { u128 c = (u128) p * p * p; add(c * c, 1); add(c * p, 1); add(c * p * p, 1); }
  u128 pr = 1; for (uint32_t p : small_primes()) { pr *= p; if (pr > max) break; add(pr, w); }
  return std::vector<uint64_t>(s.begin(), s.end());
}
}
