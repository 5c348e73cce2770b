// C10: sieves and lookup tables against their definition, after every history
// of operations up to a depth (explicit-state for the tree and the sieve).
#include "leaves.h"
#include "mcrt.h"
#include "BitSieve.hpp"
#include "BinaryIndexedTree.hpp"
#include "Wheel.hpp"
#include "FactorTable.hpp"
#include "PiTable.hpp"
#include "generate.hpp"
#include "imath.hpp"
#include <map>
#include <set>
using namespace primesum;
typedef uint64_t u64;
static const int SP9[] = {0, 2, 3, 5, 7, 11, 13, 17, 19, 23};
static bool unsieved(u64 n, int c) { for (int i = 2; i <= c; i++) if (n % SP9[i] == 0) return false; return true; }
struct Model { std::vector<char> b; };
static void pre_model(std::vector<char>& m, int c, u64 low) { for (size_t p = 0; p < m.size(); p += 2) m[p] = unsieved(low + p, c); }
static std::string S(i128 v) { return H::s128(v); }
// every query on the sieve's content
static void queries(const BitSieve& s, const std::vector<char>& m, u64 low, const char* what, int step) {
  size_t n = m.size();
  std::vector<i128> pre(n + 2, 0);
  for (size_t i = 0; i < n; i++) pre[i + 1] = pre[i] + ((i % 2 == 0 && m[i]) ? (i128) (low + i) : 0);
  for (size_t p = 0; p < n; p += 2) if (s[p] != (bool) m[p]) H::viol("%s: bit of %llu+%zu is %d, definition %d", what, (unsigned long long) low, p, (int) s[p], (int) m[p]);
  // the interval sum is only defined for sieves used in whole: size even
  for (size_t a = 0; a < n; a += step) for (size_t b = a; b < n; b += (b + 2 < n && b > a + 4 && step > 1) ? step : 1) {
    H::evals++;
    i128 w = pre[b + 1] - pre[a];
    i128 r = s.sum(low, a, b);
    if (r != w) H::viol("%s: sum(low=%llu, %zu, %zu) = %s, definition %s", what, (unsigned long long) low, a, b, S(r).c_str(), S(w).c_str());
    // forwards/backwards form, as used by the special leaves: sum over [a, b] given the sums of [0, a) and of all
    if (n % 2 == 0) {
      i128 r2 = s.sum(a, b, low, low + n, pre[a], pre[n]);
      if (r2 != w) H::viol("%s: sum(%zu, %zu, low=%llu, high=%llu, ...) = %s, definition %s", what, a, b, (unsigned long long) low, (unsigned long long) (low + n), S(r2).c_str(), S(w).c_str());
    }
  }
  if (n >= 4 && s.sum(2, 1, low, low + n, 0, pre[n]) != 0) H::viol("%s: sum of an empty interval is not 0", what);
}
static void bitsieve() {
  u64 k = 0;
  // (1) one pre_sieve: all c, dense lows, all sizes of an alphabet
  for (int size : {2, 4, 62, 64, 66, 126, 128, 130, 254, 256, 258, 1000, 1024, 2048, 6000, 8192, 16384, 40000}) for (int c = 0; c < 10; c++) {
    if (!H::mine(k++)) continue;
    std::vector<u64> lows; u64 dense = size <= 258 ? (H::thorough ? 6000 : 700) : size <= 2048 ? 120 : 12;
    for (u64 l = 1; l <= dense; l += 2) lows.push_back(l);
    for (u64 b : {(u64) 30030, (u64) 223092870, (u64) 1 << 31, (u64) 1 << 32, (u64) 1 << 40, (u64) 1000000007 * 1000, (u64) 1 << 53, (u64) 1 << 58, (u64) 1 << 60, ((u64) 1 << 61) + 12345678, ((u64) 1 << 62) - 100000}) for (int d = -3; d <= 3; d += 2) lows.push_back((b & ~1ull) + d);
    for (u64 low : lows) {
      H::begin("BitSieve(%d).pre_sieve(%d, %llu)", size, c, (unsigned long long) low); H::distinct++;
      BitSieve s(size); s.pre_sieve(c, low);
      std::vector<char> m(size); pre_model(m, c, low);
      if ((int) s.size() != size) H::viol("BitSieve(%d).size() = %zu", size, s.size());
      if (size <= 66) queries(s, m, low, "pre_sieve", 1);
      else if (size <= 258) queries(s, m, low, "pre_sieve", low % 16 == 1 ? 1 : 37);
      else if (size <= 2048) queries(s, m, low, "pre_sieve", size / 5 + 1);
      else queries(s, m, low, "pre_sieve", size / 2 - 1);
    }
    if (c == 5) H::sample("BitSieve(%d): pre_sieve(%d, low) for %zu values of low, all interval sums", size, c, lows.size());
  }
  // (2) histories: breadth first over op sequences, state = bit content (the object is rebuilt by replay)
  for (int size : {130, 256}) for (u64 low : {(u64) 1, (u64) 129, ((u64) 1 << 60) + 1}) {
    struct Op { int kind; u64 a, b; };
    std::vector<Op> ops;
    for (int c : {1, 2, 4, 6, 9}) ops.push_back({0, (u64) c, 0}), ops.push_back({0, (u64) c, (u64) size});
    for (u64 p : {0, 2, 62, 64, 126, 128}) if ((int) p < size) ops.push_back({1, p, 0}), ops.push_back({2, p, 0});
    int depth = H::thorough ? 4 : 3;
    std::map<std::vector<char>, int> seen; // includes the base low
    struct St { std::vector<int> h; };
    std::vector<St> front{{{}}};
    if (!H::mine(k++)) continue;
    std::set<std::vector<char>> vis;
    for (int d = 0; d <= depth; d++) {
      std::vector<St> nx;
      for (auto& st : front) {
        BitSieve s(size); std::vector<char> m(size, 0); u64 cur = low; bool pre = false;
        for (int o : st.h) {
          Op& op = ops[o];
          if (op.kind == 0) { cur = low + op.b; s.pre_sieve(op.a, cur); pre_model(m, op.a, cur); pre = true; }
          else if (op.kind == 1) { s.set(op.a); m[op.a] = 1; }
          else { s.unset(op.a); m[op.a] = 0; }
          H::transitions++;
        }
        (void) pre;
        std::vector<char> key = m; key.push_back(cur != low);
        if (!vis.insert(key).second) continue;
        H::states++; H::distinct++;
        std::string h; for (int o : st.h) h += std::to_string(o) + " ";
        H::begin("BitSieve(%d) history %s", size, h.c_str());
        queries(s, m, cur, ("history " + h).c_str(), 41);
        if (d < depth) for (size_t o = 0; o < ops.size(); o++) { St n = st; n.h.push_back((int) o); nx.push_back(n); }
      }
      front.swap(nx);
    }
    H::note("sieve states", vis.size());
  }
}
static void bit_tree() {
  u64 k = 0;
  // init: every bit pattern of a small sieve
  for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13}) for (u64 low : {(u64) 1, (u64) 1000001, ((u64) 1 << 61) + 1}) {
    if (!H::mine(k++)) continue;
    BinaryIndexedTree t; // reused over all patterns, as in the segment loop
    for (int pat = 0; pat < (1 << n); pat++) {
      H::begin("BinaryIndexedTree init size %d pattern %x low %llu", 2 * n, pat, (unsigned long long) low); H::distinct++;
      std::vector<char> sv(2 * n, 0); for (int i = 0; i < n; i++) sv[2 * i] = (pat >> i) & 1;
      t.init(sv, low);
      i128 w = 0;
      for (int p = 0; p < 2 * n; p++) { if (p % 2 == 0 && sv[p]) w += low + p; H::evals++; if (t.sum(p) != w) H::viol("tree of %d, pattern %x, low %llu: sum(%d) = %s, definition %s", 2 * n, pat, (unsigned long long) low, p, S(t.sum(p)).c_str(), S(w).c_str()); }
    }
  }
  // deletions: all reachable states (remaining sets), every transition
  for (int n : {1, 2, 3, 5, 8, 10, H::thorough ? 14 : 11}) {
    if (!H::mine(k++)) continue;
    u64 low = 210 * 64 + 1; std::vector<char> sv(2 * n, 0); for (int i = 0; i < n; i++) sv[2 * i] = 1;
    BinaryIndexedTree t0; t0.init(sv, low);
    std::map<int, BinaryIndexedTree> st; st[(1 << n) - 1] = t0;
    for (int pat = (1 << n) - 1; pat >= 0; pat--) {
      auto it = st.find(pat); if (it == st.end()) { H::viol("state %x not reached", pat); continue; }
      H::states++; H::distinct++; H::begin("tree of %d, remaining %x", 2 * n, pat);
      i128 w = 0;
      for (int p = 0; p < 2 * n; p++) { if (p % 2 == 0 && ((pat >> (p / 2)) & 1)) w += low + p; H::evals++; if (it->second.sum(p) != w) H::viol("tree of %d, remaining %x: sum(%d) = %s, definition %s", 2 * n, pat, p, S(it->second.sum(p)).c_str(), S(w).c_str()); }
      for (int i = 0; i < n; i++) if ((pat >> i) & 1) {
        H::transitions++;
        BinaryIndexedTree c = it->second; c.update(low + 2 * i, low);
        int np = pat & ~(1 << i); auto jt = st.find(np);
        if (jt == st.end()) st[np] = c;
        else for (int p = 0; p < 2 * n; p++) if (jt->second.sum(p) != c.sum(p)) H::viol("tree of %d: sum(%d) with %x remaining depends on the order of the updates", 2 * n, p, np);
      }
      st.erase(pat);
    }
    H::note("tree states", 1 << n);
  }
  // large trees from a real sieve, then a complete cross-off by each prime in turn
  for (int size : {128, 512, 2048, 8192}) for (int c : {1, 3, 6, 8}) {
    if (!H::mine(k++)) continue;
    u64 low = 1 + (u64) size * 3; H::begin("tree over BitSieve(%d) c=%d", size, c);
    BitSieve s(size); s.pre_sieve(c, low); std::vector<char> m(size); pre_model(m, c, low);
    BinaryIndexedTree t; t.init(s, low);
    for (u64 p : {11, 13, 17, 19, 23, 29, 31, 101}) {
      for (u64 q = (low + p - 1) / p * p; q < low + size; q += p) if ((q - low) % 2 == 0 && m[q - low]) { m[q - low] = 0; t.update(q, low); H::transitions++; }
      i128 w = 0; H::states++;
      for (int i = 0; i < size; i++) { if (i % 2 == 0 && m[i]) w += low + i; H::evals++; if (t.sum(i) != w) H::viol("tree over a sieve of %d, c=%d after crossing off %llu: sum(%d) = %s, definition %s", size, c, (unsigned long long) p, i, S(t.sum(i)).c_str(), S(w).c_str()); }
      H::distinct++;
    }
  }
}
static void wheel() {
  u64 k = 0;
  std::vector<int64_t> pr{0}; for (u64 p : O::primes_in(2, 2000)) pr.push_back(p);
  for (u64 p : {(u64) 65537, (u64) 1000003, (u64) 2147483647}) pr.push_back(p);
  auto cop = [](u64 q) { return q % 2 && q % 3 && q % 5 && q % 7; };
  std::vector<u64> lows; for (u64 l = 1; l <= (H::thorough ? 30000u : 4000u); l++) lows.push_back(l);
  for (u64 q = 0; q < 211; q++) for (u64 p : {(u64) 7, (u64) 11, (u64) 1009, (u64) 1999, (u64) 65537, (u64) 1000003, (u64) 2147483647}) for (int d = -1; d <= 1; d++) { lows.push_back(p * (q + 210) + d); lows.push_back(p * (q + 210 * 1000) + d); }
  for (u64 b : {(u64) 1 << 31, (u64) 1 << 32, (u64) 1 << 53, (u64) 1 << 61}) for (int d = -2; d <= 2; d++) lows.push_back(b + d);
  for (u64 low : lows) {
    if (!H::mine(k++)) continue;
    H::begin("Wheel(low=%llu)", (unsigned long long) low); H::distinct++;
    int64_t size = pr.size();
    Wheel w(pr, size, low);
    for (int64_t b = 1; b < size; b++) {
      u64 p = pr[b]; H::evals++;
      u64 q = (low + p - 1) / p; while (!cop(q)) q++;
      u64 got = w[b].next_multiple;
      if (got != p * q) H::viol("Wheel(low=%llu): first multiple of %llu is %llu, definition %llu", (unsigned long long) low, (unsigned long long) p, (unsigned long long) got, (unsigned long long) (p * q));
      if (b > 60 && b < 300 && low % 7) continue;
      int64_t wi = w[b].wheel_index;
      for (int i = 0; i < 50; i++) { u64 nq = q + 1; while (!cop(nq)) nq++; u64 f = Wheel::next_multiple_factor(&wi); if (f != nq - q) H::viol("wheel: after multiple %llu*%llu the step is %llu, definition %llu", (unsigned long long) p, (unsigned long long) q, (unsigned long long) f, (unsigned long long) (nq - q)); q = nq; }
      if (b == 5) { int64_t j = wi; w[b].set(12345, j); if (w[b].next_multiple != 12345 || w[b].wheel_index != j) H::viol("WheelItem::set"); }
    }
  }
  H::sample("first multiples and 50 wheel steps for %zu primes at %zu lows", pr.size() - 1, lows.size());
}
// factorisation table by naive sieve
struct Fac { std::vector<int> lpf; std::vector<signed char> mu; };
static const Fac& fac(int n) {
  static Fac f; if ((int) f.lpf.size() > n) return f;
  f.lpf.assign(n + 1, 0); f.mu.assign(n + 1, 1);
  for (int i = 2; i <= n; i++) if (!f.lpf[i]) for (int j = i; j <= n; j += i) if (!f.lpf[j]) f.lpf[j] = i;
  for (int i = 2; i <= n; i++) { int p = f.lpf[i], q = i / p; f.mu[i] = q % p == 0 ? 0 : -f.mu[q]; }
  return f;
}
template <class T> static void one_factor_table(int64_t y, int threads) {
  const Fac& f = fac((int) std::max<int64_t>(y, 100));
  int64_t TM = std::numeric_limits<T>::max();
  FactorTable<T> t(y, threads); H::distinct++;
  for (int64_t n = 2, i = 0; n <= y; n++) {
    if (n % 2 == 0 || n % 3 == 0 || n % 5 == 0 || n % 7 == 0) continue;
    i++; H::evals++;
    if (t.get_number(i) != n || t.get_index(n) != i) { H::viol("FactorTable index of %lld: get_number(%lld) = %lld, get_index = %lld", (long long) n, (long long) i, (long long) t.get_number(i), (long long) t.get_index(n)); return; }
    int64_t want = f.lpf[n] == n ? TM : f.mu[n] == 0 ? 0 : f.mu[n] == 1 ? f.lpf[n] - 1 : f.lpf[n];
    if (t.lpf(i) != want) { H::viol("FactorTable<%d>(%lld, %d threads).lpf of %lld = %lld, definition %lld", (int) sizeof(T) * 8, (long long) y, threads, (long long) n, (long long) t.lpf(i), (long long) want); return; }
    if (f.mu[n] && t.mu(i) != f.mu[n]) { H::viol("FactorTable<%d>(%lld, %d threads).mu of %lld = %lld, definition %d", (int) sizeof(T) * 8, (long long) y, threads, (long long) n, (long long) t.mu(i), f.mu[n]); return; }
  }
}
static void factor() {
  u64 k = 0;
  for (int64_t y = 1; y <= (H::thorough ? 12000 : 2500); y++) { if (!H::mine(k++)) continue; for (int t : {1, 3}) { H::begin("FactorTable(%lld, %d)", (long long) y, t); one_factor_table<uint16_t>(y, t); one_factor_table<uint32_t>(y, t); } }
  // index tables: number -> index of the largest coprime number <= it, and back
  for (int64_t i = 0, n = 0, last = -1; n <= 100000; n++) { if (n % 2 && n % 3 && n % 5 && n % 7) { if (last >= 0) i++; last = n; } if (n >= 1 && H::mine(n)) { H::evals++; int64_t v = n; AbstractFactorTable::to_index(&v); if (v != i || AbstractFactorTable::get_index(n) != i || AbstractFactorTable::get_number(i) != last) H::viol("to_index(%lld) = %lld, definition %lld (number %lld)", (long long) n, (long long) v, (long long) i, (long long) last); } }
  for (u64 b : {(u64) 1 << 32, (u64) 1 << 40, (u64) 1 << 61}) for (u64 n = b; n < b + 420; n++) { H::evals++; u64 m = n; while (m % 2 == 0 || m % 3 == 0 || m % 5 == 0 || m % 7 == 0) m--; if ((u64) AbstractFactorTable::get_number(AbstractFactorTable::get_index(n)) != m) H::viol("get_number(get_index(%llu)) is not %llu", (unsigned long long) n, (unsigned long long) m); }
  // large tables, built by teams (the boundaries between the threads' shares)
  std::vector<std::pair<int64_t, int>> big{{4200000, 1}, {10000000, 2}, {20000001, 2}, {30000003, 3}, {41000000, 4}};
  if (H::thorough) { big.push_back({90000007, 8}); big.push_back({200000000, 8}); }
  for (auto& b : big) { if (!H::mine(k++)) continue; H::begin("FactorTable(%lld, %d)", (long long) b.first, b.second); one_factor_table<uint16_t>(b.first, b.second); H::sample("FactorTable<uint16_t>(%lld) with %d threads: every entry", (long long) b.first, b.second); }
  // contiguous limits: the border between two threads' shares falls on every kind of number
  auto cop = [](int64_t n) { return n % 2 && n % 3 && n % 5 && n % 7; }; // only such numbers are in the table
  for (int64_t y = 20000000; y < 20000000 + (H::thorough ? 4200 : 500); y += 2) { if (!cop(1 + y / 2) || !H::mine(k++)) continue; if (!H::time_left()) break; H::begin("FactorTable(%lld, 2)", (long long) y); one_factor_table<uint16_t>(y, 2); }
  for (int64_t y = 30000000; y < 30000000 + (H::thorough ? 2100 : 120); y += 3) { if (!(cop(1 + y / 3) || cop(1 + y / 3 * 2)) || !H::mine(k++)) continue; if (!H::time_left()) break; H::begin("FactorTable(%lld, 3)", (long long) y); one_factor_table<uint32_t>(y, 3); }
  H::sample("FactorTable of contiguous limits from 2*10^7 with 2 threads and from 3*10^7 with 3 threads, every entry");
  // the limit of the 16-bit table
  if (H::mine(k++)) {
    if (FactorTable<uint16_t>::max() != (i128) 65534 * 65534 - 1) H::viol("FactorTable<uint16_t>::max() = %s", S(FactorTable<uint16_t>::max()).c_str());
    for (int64_t y : {(int64_t) 65534 * 65534, (int64_t) 65535 * 65535, (int64_t) 1 << 33}) { H::begin("FactorTable<uint16_t>(%lld)", (long long) y); bool th = false; try { FactorTable<uint16_t> t(y, 1); } catch (primesum_error&) { th = true; } H::evals++; if (!th) H::viol("FactorTable<uint16_t>(%lld) is not refused", (long long) y); }
  }
}
static void tables() {
  u64 k = 0;
  const Fac& f = fac(70000);
  auto pr = O::primes_in(2, 1200000);
  int dense = H::thorough ? 6000 : 1500;
  std::vector<int64_t> ms; for (int m = 0; m <= dense; m++) ms.push_back(m);
  for (int64_t b : {4096, 8192, 10000, 16384, 32768, 40000, 65536}) for (int d = -2; d <= 2; d++) ms.push_back(b + d);
  for (int64_t m : ms) {
    if (!H::mine(k++)) continue;
    H::begin("tables to %lld", (long long) m); H::distinct++;
    { PiTable t(m); int64_t c = 0; if (t.size() != m + 1) H::viol("PiTable(%lld).size()", (long long) m); for (int64_t n = 0; n <= m; n++) { c += n > 1 && f.lpf[n] == n; H::evals++; if (t[n] != c) H::viol("PiTable(%lld)[%lld] = %lld, definition %lld", (long long) m, (long long) n, (long long) t[n], (long long) c); } }
    auto pi = generate_pi(m); auto mu = generate_moebius(m); auto lp = generate_lpf(m);
    if ((int64_t) pi.size() != m + 1 || (int64_t) mu.size() != m + 1 || (int64_t) lp.size() != m + 1) H::viol("array sizes for max %lld", (long long) m);
    int64_t c = 0;
    for (int64_t n = 1; n <= m; n++) {
      c += n > 1 && f.lpf[n] == n; H::evals += 3;
      if (pi[n] != c) H::viol("generate_pi(%lld)[%lld] = %d, definition %lld", (long long) m, (long long) n, pi[n], (long long) c);
      if (mu[n] != f.mu[n]) H::viol("generate_moebius(%lld)[%lld] = %d, definition %d", (long long) m, (long long) n, mu[n], f.mu[n]);
      int32_t wl = n == 1 ? std::numeric_limits<int32_t>::max() : f.lpf[n];
      if (lp[n] != wl) H::viol("generate_lpf(%lld)[%lld] = %d, definition %d", (long long) m, (long long) n, lp[n], wl);
    }
    size_t cnt = std::upper_bound(pr.begin(), pr.end(), (u64) m) - pr.begin();
    auto ck = [&](const char* nm, size_t size, std::function<i128(size_t)> at, bool sums) {
      if (size != cnt + 1) { H::viol("%s(%lld): %zu entries, definition %zu", nm, (long long) m, size, cnt + 1); return; }
      i128 s = 0; if (at(0) != 0) H::viol("%s(%lld)[0]", nm, (long long) m);
      for (size_t i = 1; i <= cnt; i++) { s = sums ? s + pr[i-1] : pr[i-1]; H::evals++; if (at(i) != s) H::viol("%s(%lld)[%zu] = %s, definition %s", nm, (long long) m, i, S(at(i)).c_str(), S(s).c_str()); }
    };
    { auto v = generate_primes(m); ck("generate_primes", v.size(), [&](size_t i) { return (i128) v[i]; }, false); }
    { auto v = generate_primes<uint32_t>(m); ck("generate_primes<uint32_t>", v.size(), [&](size_t i) { return (i128) v[i]; }, false); }
    { auto v = generate_primes<int64_t>(m); ck("generate_primes<int64_t>", v.size(), [&](size_t i) { return (i128) v[i]; }, false); for (int64_t x = 2; x <= m; x += 1 + m / 50) if (pi_bsearch(v, x) != pi[x]) H::viol("pi_bsearch(%lld)", (long long) x); }
    { auto v = generate_prime_sums<int64_t>(m); ck("generate_prime_sums<int64_t>", v.size(), [&](size_t i) { return (i128) v[i]; }, true); }
    { auto v = generate_prime_sums<int128_t>(m); ck("generate_prime_sums<int128_t>", v.size(), [&](size_t i) { return (i128) v[i]; }, true); }
  }
  for (int n = 0; n <= dense; n++) { if (!H::mine(k++)) continue; H::begin("generate_n_primes(%d)", n); auto v = generate_n_primes(n); bool ok = (int) v.size() == n + 1 && v[0] == 0; for (int i = 1; ok && i <= n; i++) ok = (u64) v[i] == pr[i-1]; H::evals++; if (!ok) H::viol("generate_n_primes(%d) is not the first %d primes", n, n); }
  for (int64_t m : {(int64_t) 1 << 20, (int64_t) 10000000, (int64_t) 16777216 + 63}) {
    if (!H::mine(k++)) continue;
    H::begin("PiTable(%lld)", (long long) m); PiTable t(m); int64_t c = 0, n = 0; for (u64 p : O::primes_in(2, m)) { for (; n < (int64_t) p; n++) if (t[n] != c) { H::viol("PiTable(%lld)[%lld] = %lld, definition %lld", (long long) m, (long long) n, (long long) t[n], (long long) c); n = p; } c++; H::evals++; } for (; n <= m; n++) if (t[n] != c) { H::viol("PiTable(%lld)[%lld]", (long long) m, (long long) n); break; } H::distinct++;
    auto pm = generate_primes<uint32_t>(m); if ((int64_t) pm.size() != c + 1) H::viol("generate_primes(%lld)", (long long) m);
    auto s = generate_prime_sums<int128_t>(m); if (s.back() != (i128) O::prime_sum_small(m)) H::viol("generate_prime_sums(%lld)", (long long) m);
    if (m < 2000000) { const Fac& g = fac((int) m); auto mu = generate_moebius(m); auto lp = generate_lpf(m); auto pi = generate_pi(m); for (int64_t i = 2; i <= m; i++) { H::evals++; if (mu[i] != g.mu[i] || lp[i] != g.lpf[i] || pi[i] != t[i]) { H::viol("generated arrays to %lld differ from the definition at %lld", (long long) m, (long long) i); break; } } }
  }
}
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  if (H::on("sieve")) bitsieve();
  if (H::on("tree")) bit_tree();
  if (H::on("wheel")) wheel();
  if (H::on("factor")) factor();
  if (H::on("tables")) tables();
  return H::done();
}
