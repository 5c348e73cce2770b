// C18: the prime iterators (C++ and C) are cursors over the primes.  The model
// is one number: next_prime moves to the smallest prime above it (2^64-1 when
// there is none), prev_prime to the largest prime below it (0 when there is
// none), skipto sets it.  Every operation sequence of the alphabet to the stated
// depth is run on the real iterators from every starting point.
#include "common.h"
#include "mcrt.h"
#include <primesieve.h>
#include <primesieve.hpp>
#include <algorithm>
#include <memory>
#include <string.h>
#include <unordered_set>
typedef uint64_t u64;
typedef unsigned long long ull;
static const u64 M = ~0ull;
// primes around a point, extended on demand
struct Win {
  u64 lo = 1, hi = 0; std::vector<u64> p;
  void load(u64 c, u64 w) { lo = c > w ? c - w : 0; hi = c < M - 1 - w ? c + w : M - 2; p = O::primes_in(lo, hi); }
  u64 next(u64 n) {
    if (n >= M - 58) return M; // 2^64 - 59 is the largest prime
    if (n >= lo && n < hi) { auto it = std::upper_bound(p.begin(), p.end(), n); if (it != p.end()) return *it; }
    return O::next_prime(n);
  }
  u64 prev(u64 n) {
    if (n <= 2) return 0;
    if (n > lo && n <= hi + 1) { auto it = std::lower_bound(p.begin(), p.end(), n); if (it != p.begin()) return *--it; }
    return O::prev_prime(n);
  }
};
struct Cpp {
  std::unique_ptr<primesieve::iterator> it;
  Cpp(u64 s, u64 h) : it(new primesieve::iterator(s, h)) {}
  u64 next() { return it->next_prime(); } u64 prev() { return it->prev_prime(); }
  void skip(u64 s, u64 h) { it->skipto(s, h); }
  void move(int k) {
    if (k == 0) { std::unique_ptr<primesieve::iterator> b(new primesieve::iterator(std::move(*it))); it.swap(b); }
    else if (k == 1) { std::unique_ptr<primesieve::iterator> b(new primesieve::iterator(1000, 2000)); b->next_prime(); *b = std::move(*it); it.swap(b); }
    else { primesieve::iterator b(std::move(*it)); it->skipto(5); it->next_prime(); *it = std::move(b); } // there and back over a used object
  }
  bool err() { return false; }
  static const char* name() { return "iterator"; }
};
struct C {
  primesieve_iterator it;
  C(u64 s, u64 h) { primesieve_init(&it); if (s || h != M) primesieve_skipto(&it, s, h); }
  ~C() { primesieve_free_iterator(&it); }
  u64 next() { return primesieve_next_prime(&it); } u64 prev() { return primesieve_prev_prime(&it); }
  void skip(u64 s, u64 h) { primesieve_skipto(&it, s, h); }
  void move(int) { primesieve_free_iterator(&it); primesieve_init(&it); } // re-initialisation: back to 0
  bool err() { return it.is_error != 0; }
  static const char* name() { return "C iterator"; }
};
static std::unordered_set<u64> seen; // cursor positions reached
enum { OP_N, OP_P, OP_NN, OP_PP, OP_S0, OP_S1, OP_M, NOPS };
static int BURST = 300;
struct Sk { u64 s, h; };
// the op codes applied to the real iterator and to the model
template <class I> static bool apply(I& it, u64& at, int op, Win& w, const Sk* sk, const std::string& h) {
  auto chk = [&](u64 got, u64 want, const char* what) {
    H::evals++;
    if (got != want) { H::viol("%s, operations %s: %s from %llu = %llu, the prime is %llu", I::name(), h.c_str(), what, (ull) at, (ull) got, (ull) want); return false; }
    at = want; return true;
  };
  H::transitions++; seen.insert(at);
  switch (op) {
    case OP_N: return chk(it.next(), w.next(at), "next_prime");
    case OP_P: return chk(it.prev(), w.prev(at), "prev_prime");
    case OP_NN: for (int i = 0; i < BURST; i++) if (!chk(it.next(), w.next(at), "next_prime")) return false; return true;
    case OP_PP: for (int i = 0; i < BURST; i++) if (!chk(it.prev(), w.prev(at), "prev_prime")) return false; return true;
    case OP_S0: it.skip(sk[0].s, sk[0].h); at = sk[0].s; return true;
    case OP_S1: it.skip(sk[1].s, sk[1].h); at = sk[1].s; return true;
    case OP_M: it.move(0); if (!strcmp(I::name(), "C iterator")) at = 0; return true;
  }
  return true;
}
#include <string.h>
#include <unordered_set>
static const char* OPN[] = {"next", "prev", "next*300", "prev*300", "skip0", "skip1", "move"};
template <class I> static void seqs(u64 s, u64 hint, int depth, int nops, Win& w, const Sk* sk) {
  u64 tot = 1; for (int i = 0; i < depth; i++) tot *= nops;
  for (u64 q = 0; q < tot; q++) {
    std::string h = "start " + std::to_string(s) + " hint " + std::to_string(hint) + ":";
    H::begin("%s from %llu hint %llu sequence %llu", I::name(), (ull) s, (ull) hint, (ull) q);
    I it(s, hint); u64 at = s; u64 r = q;
    for (int d = 0; d < depth; d++, r /= nops) { int op = (int) (r % nops); h += std::string(" ") + OPN[op]; if (!apply(it, at, op, w, sk, h)) return; }
    if (it.err()) H::viol("%s, operations %s: error flag set", I::name(), h.c_str());
    H::traces++; H::distinct++;
  }
}
static std::vector<u64> hints(u64 s) {
  std::vector<u64> v = {M, 0, s};
  for (u64 d : {1, 3, 200, 1000, 100000}) { if (s + d > s) v.push_back(s + d); if (s >= d) v.push_back(s - d); }
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
static void starts() { // every starting point, short sequences of next and prev
  const u64 D = H::thorough ? 3000 : 800; Win w; w.load(0, 60000);
  Sk sk[2] = {{0, M}, {0, M}};
  for (u64 s = 0; s <= D; s++) {
    if (!H::mine(s)) continue;
    for (u64 h : hints(s)) { seqs<Cpp>(s, h, 3, 2, w, sk); seqs<C>(s, h, 3, 2, w, sk); }
  }
  std::vector<u64> st;
  for (u64 p : {241, 251, 719, 727, 991, 1429, 4999, 8191, 65521, 65537, 99991}) for (int d = -3; d <= 3; d++) st.push_back((u64) p * p + d);
  for (int e = 12; e <= 40; e += 2) for (int d = -1; d <= 1; d++) st.push_back((1ull << e) + d);
  for (u64 v : {245760ull, 491520ull, 1966080ull, 1000000ull, 1000000000ull, 1000000000000ull}) for (int d = -2; d <= 2; d++) st.push_back(v + d);
  u64 k = 0;
  for (u64 s : st) {
    if (!H::mine(k++)) continue;
    w.load(s, 5000);
    for (u64 h : hints(s)) { seqs<Cpp>(s, h, s < 10000000000ull ? 4 : 3, 2, w, sk); if (h >= s) seqs<C>(s, h, 3, 2, w, sk); }
  }
  H::sample("all sequences of 3 next/prev from every start <= %llu and %zu structural starts under up to 13 stop hints", (ull) D, st.size());
}
static void histories() { // all operations, deeper
  struct St { u64 s, h; Sk sk[2]; int depth; };
  std::vector<St> v = {
    {0, M, {{0, 0}, {1000, 1100}}, 5}, {1, 3, {{2, M}, {719, 720}}, 5}, {720, 5000, {{3, 3}, {720, M}}, 5}, {1000000, M, {{5, M}, {1000000, 1000000}}, 5}, {1000000000, 1000000500, {{1000000000, M}, {100, M}}, 4}, {1000000000000ull, M, {{999999999999ull, 1000000000100ull}, {0, M}}, 4}};
  for (size_t i = 0; i < v.size(); i++) {
    auto& st = v[i]; int depth = st.depth + (H::thorough ? 1 : 0);
    u64 tot = 1; for (int d = 0; d < depth; d++) tot *= NOPS;
    Win w; w.load(st.s, st.s < 2000000 ? 300000 : 200000);
    for (u64 q = 0; q < tot; q++) {
      if (!H::mine(q % 1009 + i)) continue;
      for (int cls = 0; cls < 2; cls++) {
        std::string h = "start " + std::to_string(st.s) + " hint " + std::to_string(st.h) + " skips (" + std::to_string(st.sk[0].s) + "," + std::to_string(st.sk[0].h) + ") (" + std::to_string(st.sk[1].s) + "," + std::to_string(st.sk[1].h) + "):";
        H::begin("history %zu sequence %llu class %d", i, (ull) q, cls);
        u64 at = st.s, r = q; bool ok = true;
        if (cls == 0) { Cpp it(st.s, st.h); for (int d = 0; d < depth && ok; d++, r /= NOPS) { int op = (int) (r % NOPS); h += std::string(" ") + OPN[op]; if (op == OP_M) { it.move(d % 3); H::transitions++; } else ok = apply(it, at, op, w, st.sk, h); } }
        else { C it(st.s, st.h); for (int d = 0; d < depth && ok; d++, r /= NOPS) { int op = (int) (r % NOPS); h += std::string(" ") + OPN[op]; ok = apply(it, at, op, w, st.sk, h); } if (it.err()) H::viol("%s: error flag set", h.c_str()); }
        H::traces++; H::distinct++;
      }
    }
    H::sample("all sequences of %d operations {next, prev, 300 times each, two skipto, move/re-init} from %llu, hint %llu", depth, (ull) st.s, (ull) st.h);
  }
}
// turning points at every position of the batches
static void turns() {
  u64 k = 0;
  for (u64 s : {0ull, 719ull, 100000ull, 1000000000ull, 100000000000ull}) for (u64 h : {M, s + 3000}) {
    Win w; w.load(s, 60000);
    int top = H::thorough ? 1200 : 620;
    for (int n = 0; n < top; n += (s > 1000000 ? 3 : 1)) {
      if (!H::mine(k++)) continue;
      for (int back : {1, 2, n / 2, n, n + 1, n + 5}) {
        H::begin("turn %llu %d %d", (ull) s, n, back); H::distinct++;
        std::string hh = "start " + std::to_string(s) + " hint " + std::to_string(h) + ": next*" + std::to_string(n) + " prev*" + std::to_string(back) + " next*5";
        Cpp a(s, h); C b(s, h); u64 x = s, y = s; bool ok = true;
        for (int i = 0; i < n && ok; i++) ok = apply(a, x, OP_N, w, nullptr, hh) && apply(b, y, OP_N, w, nullptr, hh);
        for (int i = 0; i < back && ok; i++) ok = apply(a, x, OP_P, w, nullptr, hh) && apply(b, y, OP_P, w, nullptr, hh);
        for (int i = 0; i < 5 && ok; i++) ok = apply(a, x, OP_N, w, nullptr, hh) && apply(b, y, OP_N, w, nullptr, hh);
        // and the mirror image
        if (n > 300 || s > 200000) continue;
        Cpp c(s + 50000, h); x = s + 50000; ok = true;
        for (int i = 0; i < n && ok; i++) ok = apply(c, x, OP_P, w, nullptr, "mirror " + hh);
        for (int i = 0; i < back && ok; i++) ok = apply(c, x, OP_N, w, nullptr, "mirror " + hh);
        for (int i = 0; i < 5 && ok; i++) ok = apply(c, x, OP_P, w, nullptr, "mirror " + hh);
      }
    }
  }
  H::sample("next*n prev*m next*5 for every n below %d", H::thorough ? 1200 : 620);
}
static void walks() { // long walks, all sieve sizes
  u64 k = 0;
  struct Wk { u64 lo, len; };
  std::vector<Wk> v = {{0, 3000000}, {1000000000, 1500000}, {99999999000ull, 1500000}, {1000000000000ull, 1500000}, {70000000000000ull, 800000}};
  if (H::thorough) v.push_back({0, 300000000}), v.push_back({10000000000000ull, 60000000}), v.push_back({1000000000000000ull, 20000000});
  for (auto& q : v) for (int kb : {8, 16, 64, 512, 4096}) for (int hint = 0; hint < 3; hint++) {
    if (!H::mine(k++)) continue;
    primesieve::set_sieve_size(kb);
    auto p = O::primes_in(q.lo + (q.lo ? 1 : 0), q.lo + q.len); H::distinct++;
    H::begin("walk %llu + %llu, %d KiB, hint %d", (ull) q.lo, (ull) q.len, kb, hint);
    u64 hf = hint == 0 ? M : hint == 1 ? q.lo + q.len : q.lo + q.len / 3, hb = hint == 0 ? M : hint == 1 ? q.lo : q.lo + q.len / 2;
    Cpp a(q.lo, hf); C b(q.lo, hf);
    for (size_t i = 0; i < p.size(); i++) { u64 x = a.next(), y = b.next(); H::evals += 2; if (x != p[i] || y != p[i]) { H::viol("walk forwards from %llu, hint %llu, %d KiB: prime %zu is %llu, iterators give %llu and %llu", (ull) q.lo, (ull) hf, kb, i, (ull) p[i], (ull) x, (ull) y); break; } }
    a.skip(q.lo + q.len + 1, hb); b.skip(q.lo + q.len + 1, hb);
    for (size_t i = p.size(); i-- > 0; ) { u64 x = a.prev(), y = b.prev(); H::evals += 2; if (x != p[i] || y != p[i]) { H::viol("walk backwards from %llu, hint %llu, %d KiB: the prime is %llu, iterators give %llu and %llu", (ull) (q.lo + q.len + 1), (ull) hb, kb, (ull) p[i], (ull) x, (ull) y); break; } }
    if (!q.lo) for (int i = 0; i < 3; i++) { u64 x = a.prev(), y = b.prev(); H::evals += 2; if (x || y) H::viol("prev_prime below 2 gives %llu and %llu, documented 0", (ull) x, (ull) y); }
    primesieve::set_sieve_size(32);
  }
  H::sample("walks over up to %llu numbers forwards and backwards with sieves of 8 to 4096 KiB", (ull) v[v.size() - 1].len);
}
static void top() { // the end of the 64-bit range
  u64 k = 0; Sk sk[2] = {{M - 100, M - 1}, {M - 300, M - 10}};
  Win w; w.load(M - 100000, 99000);
  struct T { u64 s; std::vector<int> ops; };
  std::vector<T> v = {
    {M, {OP_N, OP_N, OP_P, OP_N, OP_N}}, {M - 1, {OP_P, OP_N, OP_N, OP_P}}, {M - 58, {OP_N, OP_N, OP_P, OP_P}}, {M - 59, {OP_N, OP_N, OP_N, OP_P}}, {M - 200, {OP_N, OP_N, OP_N, OP_N, OP_N, OP_N, OP_P, OP_S1, OP_N, OP_P}}, {M - 57, {OP_P, OP_P, OP_N, OP_N, OP_N}}, {M - 8000, {OP_NN, OP_P, OP_P}}, {M, {OP_P, OP_S0, OP_N}}};
  for (auto& t : v) for (int cls = 0; cls < 2; cls++) {
    if (!H::mine(k++)) continue;
    std::string h = "start " + std::to_string(t.s) + " hint 2^64-401:"; u64 at = t.s, hint = M - 400; bool ok = true;
    H::begin("top %llu class %d", (ull) t.s, cls); H::distinct++;
    if (cls == 0) { Cpp it(t.s, hint); for (int o : t.ops) { h += std::string(" ") + OPN[o]; if (ok) ok = apply(it, at, o, w, sk, h); } }
    else { C it(t.s, hint); for (int o : t.ops) { h += std::string(" ") + OPN[o]; if (ok) ok = apply(it, at, o, w, sk, h); } }
  }
  H::sample("%zu operation sequences across 2^64 - 1", v.size());
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  primesieve::set_num_threads(1); primesieve::set_sieve_size(32);
  if (H::on("starts")) starts();
  if (H::on("histories")) histories();
  if (H::on("turns")) turns();
  if (H::on("walks")) walks();
  if (H::on("top")) top();
  H::states = seen.size();
  return H::done();
}
