// C27: results do not depend on what the operating system tells about the processor.
// Every description is given to a fresh process, whose files below /sys/devices/system/cpu and /proc/cpuinfo are served from the description.
#include "sieveo.h"
#include "mcrt.h"
#include <primesum.hpp>
#include <primesieve.h>
#include <primesieve.hpp>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>
typedef uint64_t u64; typedef unsigned long long ull;
extern "C" int psv_app_main(int, char**);

// ---- the files: VERIF_CPU = "path\x01content\x02path\x01content..."
static const char* CPUDIR = "/sys/devices/system/cpu";
static int served(const char* path) { // -2: not ours, -1: does not exist, else a descriptor
  if (!path) return -2;
  const char* fs = getenv("VERIF_CPU"); if (!fs) return -2;
  const char* key;
  if (!strncmp(path, CPUDIR, strlen(CPUDIR))) key = path + strlen(CPUDIR); else if (!strcmp(path, "/proc/cpuinfo")) key = path; else return -2;
  while (*key == '/' && key == path + strlen(CPUDIR)) key++;
  size_t kl = strlen(key);
  for (const char* p = fs; *p;) {
    const char* m = strchr(p, 1); const char* e = strchr(p, 2); if (!m || !e || m > e) break;
    if ((size_t) (m - p) == kl && !memcmp(p, key, kl)) { int f = memfd_create("cpu", 0); size_t n = e - m - 1; if (write(f, m + 1, n) != (ssize_t) n) _exit(99); lseek(f, 0, SEEK_SET); return f; }
    p = e + 1;
  }
  errno = ENOENT; return -1;
}
#define REAL(n) static auto real = (decltype(&n)) dlsym(RTLD_NEXT, #n)
extern "C" {
FILE* fopen(const char* p, const char* m) { int f = served(p); if (f >= 0) return fdopen(f, "r"); if (f == -1) return nullptr; REAL(fopen); return real(p, m); }
FILE* fopen64(const char* p, const char* m) { int f = served(p); if (f >= 0) return fdopen(f, "r"); if (f == -1) return nullptr; REAL(fopen64); return real(p, m); }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); int f = served(p); if (f != -2) return f; REAL(open); return real(p, fl, md); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); int f = served(p); if (f != -2) return f; REAL(open64); return real(p, fl, md); }
int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); int f = served(p); if (f != -2) return f; REAL(openat); return real(d, p, fl, md); }
}

// ---- what the fresh process computes: lines "name value"; the expected values are made by the oracle in the parent
struct Q { u64 a, b; };
static std::vector<Q> intervals(int lvl) {
  std::vector<Q> v = {{0, 100}, {0, 1000000}, {5, 245767}, {1000000000, 1000300000}};
  if (lvl >= 1) { v.push_back({7, 3000000}); v.push_back({1000000000000ull, 1000000500000ull}); }
  if (lvl >= 2) { v.push_back({0, 8000000}); v.push_back({1000000000000000ull, 1000000000400000ull}); }
  return v;
}
static std::vector<int> sizes(int lvl) { if (lvl == 0) return {0, 8, 64}; if (lvl == 1) return {0, 8, 16, 32, 128}; return {0, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}; }
static int child(int lvl) {
  mc::set_max_threads(4);
  printf("default %d\n", primesieve::get_sieve_size());
  for (int kb : sizes(lvl)) {
    if (kb) primesieve::set_sieve_size(kb);
    for (int th : {1, 3}) { if (th > 1 && kb != 8 && kb) continue; primesieve::set_num_threads(th);
      for (auto& q : intervals(lvl)) { printf("count %llu %llu %llu\n", (ull) q.a, (ull) q.b, (ull) primesieve::count_primes(q.a, q.b)); if (kb <= 8) printf("sextuplets %llu %llu %llu\n", (ull) q.a, (ull) q.b, (ull) primesieve::count_sextuplets(q.a, q.b)); } }
    printf("nth %llu\n", (ull) primesieve::nth_prime(60000, 1000000000)); printf("nthback %llu\n", (ull) primesieve::nth_prime(-30000, 1000000000));
    std::vector<u64> v; primesieve::generate_primes(100000, 400000, &v); u64 h = 0; for (u64 p : v) h = h * 1000003 + p; printf("list %llu\n", (ull) h);
    primesieve::iterator it(1000000000); u64 s = 0; for (int i = 0; i < 20000; i++) s = s * 31 + it.next_prime(); for (int i = 0; i < 30000; i++) s = s * 31 + it.prev_prime(); printf("iterate %llu\n", (ull) s);
  }
  primesum::set_num_threads(2);
  for (const char* x : {"1000000", "12345678"}) printf("sum %s %s\n", x, primesum::pi(std::string(x)).c_str());
  fflush(stdout);
  return 0;
}
static std::string expected(int lvl) {
  static std::map<int, std::string> memo; auto& r = memo[lvl]; if (!r.empty()) return r;
  static std::map<std::pair<u64, u64>, std::pair<u64, u64>> cnt;
  for (auto& q : intervals(lvl)) if (!cnt.count({q.a, q.b})) { SO::Tab t(q.a, q.b + 40); cnt[{q.a, q.b}] = {t.count(0, q.a, q.b), t.count(5, q.a, q.b)}; }
  static u64 nth = 0, nthb = 0, h = 0, s = 0;
  if (!nth) {
    auto f = O::primes_in(1000000001, 1003000000), b = O::primes_in(999000000, 999999999); nth = f.at(59999); nthb = b.at(b.size() - 30000);
    for (u64 p : O::primes_in(100000, 400000)) h = h * 1000003 + p;
    auto all = O::primes_in(990000000, 1003000000); size_t at = std::lower_bound(all.begin(), all.end(), (u64) 1000000000) - all.begin();
    size_t pos = at; for (int i = 0; i < 20000; i++) { s = s * 31 + all[pos]; pos++; } pos--; for (int i = 0; i < 30000; i++) { pos--; s = s * 31 + all[pos]; }
  }
  for (int kb : sizes(lvl)) {
    for (int th : {1, 3}) { if (th > 1 && kb != 8 && kb) continue;
      for (auto& q : intervals(lvl)) { auto c = cnt[{q.a, q.b}]; char b[128]; snprintf(b, sizeof b, "count %llu %llu %llu\n", (ull) q.a, (ull) q.b, (ull) c.first); r += b; if (kb <= 8) { snprintf(b, sizeof b, "sextuplets %llu %llu %llu\n", (ull) q.a, (ull) q.b, (ull) c.second); r += b; } } }
    r += "nth " + std::to_string(nth) + "\nnthback " + std::to_string(nthb) + "\nlist " + std::to_string(h) + "\niterate " + std::to_string(s) + "\n";
  }
  for (u64 x : {1000000ull, 12345678ull}) r += "sum " + std::to_string(x) + " " + H::s128((__int128) O::prime_sum(x)) + "\n";
  return r;
}
typedef std::map<std::string, std::string> FS;
static std::string env(const FS& f) { std::string s; for (auto& p : f) s += p.first + "\x01" + p.second + "\x02"; return s; }
static std::string shown(const FS& f) { std::string s; for (auto& p : f) { s += (s.empty() ? "" : ", ") + p.first + "='"; for (char c : p.second) if (c == '\n') s += "\\n"; else s += c; s += "'"; } return s.empty() ? "nothing" : s; }
static H::Proc exec_self(const FS& f, const std::string& mode) {
  std::string e = env(f);
  return H::run_forked([&]() -> int { setenv("VERIF_CPU", e.c_str(), 1); std::string m = "--child=" + mode; execl("/proc/self/exe", "c27", m.c_str(), (char*) nullptr); return 98; }, 120);
}
static u64 defaults[64];
static void one(const FS& f, int lvl) {
  H::begin("the processor described by %s", shown(f).c_str()); H::evals++; H::distinct++;
  auto p = exec_self(f, std::to_string(lvl));
  if (!p.exited || p.code) { H::viol("with %s: the process ends with status %d (%s)", shown(f).c_str(), p.status, p.err.substr(0, 200).c_str()); return; }
  size_t z = p.out.find('\n'); std::string first = p.out.substr(0, z), rest = z == std::string::npos ? "" : p.out.substr(z + 1), want = expected(lvl);
  int d = 0; if (sscanf(first.c_str(), "default %d", &d) != 1 || d < 8 || d > 4096 || (d & (d - 1))) H::viol("with %s: the default sieve size is '%s'", shown(f).c_str(), first.c_str());
  else { int l = 0; while (1 << l < d) l++; defaults[l]++; }
  if (rest != want) { size_t i = 0; while (i < rest.size() && i < want.size() && rest[i] == want[i]) i++; size_t b = rest.rfind('\n', i ? i - 1 : 0); b = b == std::string::npos ? 0 : b + 1; H::viol("with %s: got '%s', expected '%s' (%zu bytes into the results)", shown(f).c_str(), rest.substr(b, 80).c_str(), want.substr(b, 80).c_str(), i); }
}
// what --cpu-info must say about a well-formed description
static void info(const FS& f, const std::string& want) {
  H::begin("primesieve --cpu-info with %s", shown(f).c_str()); H::evals++; H::distinct++;
  auto p = exec_self(f, "info");
  if (!p.exited || p.code || p.out != want || !p.err.empty()) H::viol("primesieve --cpu-info with %s: status %d, prints '%s', expected '%s'", shown(f).c_str(), p.status, p.out.c_str(), want.c_str());
}
static FS cpu(const std::string& l1, const std::string& l2, const std::string& share, const std::string& core, const std::string& l3 = "", bool map = false, bool old = false) {
  FS f; int i = 0;
  auto cache = [&](const char* lv, const char* ty, const std::string& sz, const std::string& sh) { if (sz == "-") return; std::string p = "cpu0/cache/index" + std::to_string(i++) + "/"; f[p + "level"] = std::string(lv) + "\n"; f[p + "type"] = std::string(ty) + "\n"; f[p + "size"] = sz + "\n"; if (sh != "-") f[p + (map ? "shared_cpu_map" : "shared_cpu_list")] = sh + "\n"; };
  cache("1", "Data", l1, map ? "01" : "0"); cache("1", "Instruction", "32K", map ? "01" : "0"); cache("2", "Unified", l2, share); if (!l3.empty()) cache("3", "Unified", l3, map ? "ff" : "0-7");
  if (core != "-") f[std::string("cpu0/topology/") + (old ? (map ? "thread_siblings" : "thread_siblings_list") : (map ? "core_cpus" : "core_cpus_list"))] = core + "\n";
  f["online"] = "0-7\n";
  return f;
}
int main(int argc, char** argv) {
  if (argc == 2 && !strncmp(argv[1], "--child=", 8)) {
    if (!strcmp(argv[1] + 8, "info")) { char a[] = "primesieve", b[] = "--cpu-info"; char* v[] = {a, b, nullptr}; return psv_app_main(2, v); }
    return child(atoi(argv[1] + 8));
  }
  H::init(argc, argv);
  u64 k = 0; int L0 = H::thorough ? 1 : 0, L1 = H::thorough ? 2 : 1;
  auto go = [&](const FS& f, int lvl) { if (H::mine(k++)) one(f, lvl); };
  if (H::on("sizes")) { // first level caches of every size, with and without a private second level
    for (int kb = 4; kb <= (H::thorough ? 520 : 132); kb += kb < 70 || H::thorough ? 1 : 4) for (const char* l2 : {"-", "1M"}) go(cpu(std::to_string(kb) + "K", l2, "0", "0"), kb % 16 == 0 ? 2 : L1);
    for (const char* l1 : {"8K", "16K", "24K", "32K", "48K", "64K", "80K", "96K", "128K", "192K", "4096K"}) for (const char* l2 : {"-", "2M"}) go(cpu(l1, l2, "0", "0"), 2);
    for (const char* l1 : {"4095", "4096", "5000", "8191", "8193", "10007", "32767", "33000", "49151", "49153", "65537", "99991", "1M", "4M", "5M", "64M", "1G", "2G", "0K", "1K", "3K", "0"}) for (const char* l2 : {"-", "256K", "1280K"}) go(cpu(l1, l2, "0", "0"), L1);
    for (const char* l1 : {"-", "32K", "48K"}) for (const char* l2 : {"3K", "4K", "5K", "31K", "32K", "33K", "63K", "64K", "65K", "100K", "256K", "512K", "1M", "1025K", "1280K", "2M", "3M", "4M", "8M", "9M", "64M", "1G", "1024G", "1025G", "99999G"}) go(cpu(l1, l2, "0", "0"), L0);
    H::sample("first level caches from 4 KiB on in steps of 1 KiB, odd byte sizes, second level caches from 3 KiB to 99999 GiB");
  }
  if (H::on("topology")) { // sharing and siblings, in both notations and places
    for (const char* sh : {"-", "", "0", "0-1", "0,4", "0-7", "0-3,8-11", "5-2", "0-4294967295", "0-18446744073709551615"}) for (const char* co : {"-", "", "0", "0,4", "0-1", "0-7", "1-0", "0-1023", "0-1024"}) for (const char* l1 : {"-", "32K"}) for (int old = 0; old < 2; old++) go(cpu(l1, "512K", sh, co, "16M", false, old), L0);
    for (const char* sh : {"0", "1", "3", "00000000,00000011", "ff,ffffffff", "ffffffff,ffffffff,ffffffff", "0000"}) for (const char* co : {"1", "11", "00000003", "ff", "-"}) for (int old = 0; old < 2; old++) go(cpu("48K", "1M", sh, co, "", true, old), L0);
    H::sample("sharing and sibling lists in both notations");
  }
  if (H::on("broken")) { // one file of a good description missing, empty or garbage
    const FS good = cpu("32K", "512K", "0-1", "0-1", "16M"); go(good, L0 + 1); go({}, L0 + 1);
    const char* G[] = {"", "\n", " ", "abc\n", "32X\n", "-5\n", "-1K\n", "99999999999999999999\n", "99999999999999999999K\n", "K\n", "0x20K\n", "32KK\n", "32 K\n", "1-\n", "-\n", "-3\n", ",\n", ",,,\n", "1-2-3\n", "a-b\n", "0-1,\n", "zz\n", "1\n\n\n", "\t2\n", "2.5M\n", "18446744073709551615\n", "18446744073709551615G\n", "4\n", "9\n", "1e3K\n", "32k\n", "32KB\n", "Data\n", "Unified\n", "Instruction\n", "unknown\n", "\xff\xfe\n"};
    for (auto& p : good) { FS f = good; f.erase(p.first); go(f, L0); for (auto g : G) { f[p.first] = g; go(f, L0); } f[p.first] = std::string(100000, '1'); if (p.first.size()) go(f, L0); }
    for (auto& p : good) for (auto& q : good) if (p.first < q.first) { FS f = good; f.erase(p.first); f.erase(q.first); go(f, L0); if (!H::thorough) continue; for (auto g : G) { f[p.first] = g; f[q.first] = g; go(f, L0); } }
    H::sample("every file of a description missing, and with %zu kinds of garbage; every two missing", sizeof G / sizeof *G);
  }
  if (H::on("info")) {
    auto I = [&](FS f, const std::string& name, const std::string& w) { if (H::mine(k++)) { if (!name.empty()) f["/proc/cpuinfo"] = "processor\t: 0\nvendor_id\t: V\nmodel name\t: " + name + "\nflags\t: a b\n"; info(f, "" + w); } };
    auto T = [](int t) { return std::to_string(t) + (t > 1 ? " threads" : " thread"); };
    for (int kb : {4, 8, 32, 48, 64, 1024}) for (int mb : {1, 2, 7}) for (int sh : {1, 2, 8}) for (int tc : {1, 2, 4}) {
      std::string shs = sh == 1 ? "0" : "0-" + std::to_string(sh - 1), co = tc == 1 ? "0" : "0-" + std::to_string(tc - 1);
      FS f = cpu(std::to_string(kb) + "K", std::to_string(mb) + "M", shs, co, "16M");
      I(f, "Test CPU " + std::to_string(kb), "Test CPU " + std::to_string(kb) + "\nNumber of cores: " + std::to_string(8 / tc) + "\nNumber of threads: 8\nThreads per core: " + std::to_string(tc) + "\nL1 cache size: " + std::to_string(kb) + " KiB\nL2 cache size: " + std::to_string(mb * 1024) + " KiB\nL3 cache size: 16 MiB\nL1 cache sharing: 1 thread\nL2 cache sharing: " + T(sh) + "\nL3 cache sharing: 8 threads\n");
    }
    I({}, "", "CPU name: unknown\nNumber of cores: unknown\nNumber of threads: unknown\nThreads per core: unknown\nL1 cache size: unknown\nL2 cache size: unknown\nL3 cache size: unknown\nL1 cache sharing: unknown\nL2 cache sharing: unknown\nL3 cache sharing: unknown\n");
    I(cpu("32K", "-", "-", "-"), "", "CPU name: unknown\nNumber of cores: unknown\nNumber of threads: 8\nThreads per core: unknown\nL1 cache size: 32 KiB\nL1 cache sharing: 1 thread\n");
    I(cpu("-", "256K", "0,4", "0,4"), "X", "X\nNumber of cores: 4\nNumber of threads: 8\nThreads per core: 2\nL2 cache size: 256 KiB\nL2 cache sharing: 2 threads\n");
    H::sample("the text of --cpu-info for 111 well-formed descriptions");
  }
  u64 kinds = 0; for (auto d : defaults) kinds += d > 0;
  H::note("default sieve sizes met (summed over shards)", kinds);
  return H::done();
}
