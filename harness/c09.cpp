// C09: 256-bit integers against an independent limb model.
#include "common.h"
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <algorithm>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <cstring>
using namespace primesum;

struct M { uint64_t l[4]; };   // two's complement, little endian
static bool neg(const M& a) { return a.l[3] >> 63; }
static bool eq(const M& a, const M& b) { return !memcmp(a.l, b.l, 32); }
static M add(const M& a, const M& b) { M r; unsigned __int128 c = 0; for (int i = 0; i < 4; i++) { c += a.l[i]; c += b.l[i]; r.l[i] = (uint64_t) c; c >>= 64; } return r; }
static M inv(const M& a) { M r; for (int i = 0; i < 4; i++) r.l[i] = ~a.l[i]; return r; }
static M one() { return M{{1, 0, 0, 0}}; }
static M zero() { return M{{0, 0, 0, 0}}; }
static M negate(const M& a) { return add(inv(a), one()); }
static M sub(const M& a, const M& b) { return add(a, negate(b)); }
static M mul(const M& a, const M& b) {
  M r = zero();
  for (int i = 0; i < 4; i++) { unsigned __int128 c = 0; for (int j = 0; i + j < 4; j++) { c += (unsigned __int128) a.l[i] * b.l[j] + r.l[i+j]; r.l[i+j] = (uint64_t) c; c >>= 64; } }
  return r;
}
static int ucmp(const M& a, const M& b) { for (int i = 3; i >= 0; i--) if (a.l[i] != b.l[i]) return a.l[i] < b.l[i] ? -1 : 1; return 0; }
static int scmp(const M& a, const M& b) { if (neg(a) != neg(b)) return neg(a) ? -1 : 1; return ucmp(a, b); }
static M shl(const M& a, unsigned n) { M r = zero(); if (n > 255) return r; unsigned w = n / 64, s = n % 64; for (int i = 3; i >= (int) w; i--) { r.l[i] = a.l[i-w] << s; if (s && i - (int) w - 1 >= 0) r.l[i] |= a.l[i-w-1] >> (64 - s); } return r; }
static M shr(const M& a, unsigned n) { M r = zero(); if (n > 255) return r; unsigned w = n / 64, s = n % 64; for (int i = 0; i + w < 4; i++) { r.l[i] = a.l[i+w] >> s; if (s && i + w + 1 < 4) r.l[i] |= a.l[i+w+1] << (64 - s); } return r; }
static M mabs(const M& a) { return neg(a) ? negate(a) : a; }
static M udivmod(const M& a, const M& b, M& rem) { // unsigned, bitwise
  M q = zero(); rem = zero();
  for (int i = 255; i >= 0; i--) {
    bool top = rem.l[3] >> 63;
    rem = shl(rem, 1); rem.l[0] |= (a.l[i/64] >> (i % 64)) & 1;
    if (top || ucmp(rem, b) >= 0) { rem = sub(rem, b); q.l[i/64] |= 1ull << (i % 64); }
  }
  return q;
}
static std::string dec(M a) {
  bool n = neg(a); if (n) a = negate(a);
  std::string s;
  while (true) {
    bool z = true; unsigned __int128 r = 0;
    for (int i = 3; i >= 0; i--) { r = (r << 64) | a.l[i]; a.l[i] = (uint64_t) (r / 10); r %= 10; if (a.l[i]) z = false; }
    s += (char) ('0' + (int) r); if (z) break;
  }
  if (n) s += '-';
  std::reverse(s.begin(), s.end()); return s;
}
static int256_t mk(const M& a) {
  uint128_t lo = ((uint128_t) a.l[1] << 64) | a.l[0], hi = ((uint128_t) a.l[3] << 64) | a.l[2];
  int256_t h = hi; h = h << 128; return h | int256_t(lo);
}
static M get(const int256_t& x) {
  uint128_t lo = (uint128_t) x; int256_t h = x >> 128; uint128_t hi = (uint128_t) h;
  return M{{(uint64_t) lo, (uint64_t) (lo >> 64), (uint64_t) hi, (uint64_t) (hi >> 64)}};
}
static std::string str(const int256_t& x) { std::ostringstream o; o << x; return o.str(); }
static std::string hex(const M& a) { char b[80]; snprintf(b, sizeof b, "0x%016llx%016llx%016llx%016llx", (unsigned long long) a.l[3], (unsigned long long) a.l[2], (unsigned long long) a.l[1], (unsigned long long) a.l[0]); return b; }
static void bad(const char* op, const M& a, const M& b, const M& want, const M& got) {
  H::viol("int256: %s of %s and %s is %s, got %s", op, hex(a).c_str(), hex(b).c_str(), hex(want).c_str(), hex(got).c_str());
}
#define CK(op, w, g) do { H::evals++; M w_ = (w), g_ = get(g); if (!eq(w_, g_)) bad(op, a, b, w_, g_); } while (0)
#define CKB(op, w, g) do { H::evals++; if ((bool) (w) != (bool) (g)) H::viol("int256: %s %s %s: got %d", hex(a).c_str(), op, hex(b).c_str(), (int) (bool) (g)); } while (0)

static std::vector<M> values(bool rich) {
  std::vector<uint64_t> L = {0, 1, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
  if (rich) { L.push_back(3); L.push_back(0xffffffffull); L.push_back(0x100000000ull); L.push_back(~0ull - 1); }
  std::vector<M> v;
  for (uint64_t a : L) for (uint64_t b : L) for (uint64_t c : L) for (uint64_t d : L) v.push_back(M{{a, b, c, d}});
  if (!rich) {
    M p = one();
    for (int k = 0; k < 77; k++) { M t = M{{10, 0, 0, 0}}; for (int d = -1; d <= 1; d++) { M x = d < 0 ? sub(p, one()) : d ? add(p, one()) : p; v.push_back(x); v.push_back(negate(x)); } if (k < 76) p = mul(p, t); }
    for (int k = 0; k < 255; k++) { M x = shl(one(), k); v.push_back(x); v.push_back(sub(x, one())); v.push_back(negate(x)); }
    for (uint64_t s : {2ull, 3ull, 5ull, 10ull, 255ull, 65535ull, 1000000007ull}) { v.push_back(M{{s, 0, 0, 0}}); v.push_back(negate(M{{s, 0, 0, 0}})); }
  }
  return v;
}

// one pair, all operators
static void pair(const M& a, const M& b, bool divs) {
  int256_t x = mk(a), y = mk(b);
  CK("+", add(a, b), x + y); CK("-", sub(a, b), x - y); CK("*", mul(a, b), x * y);
  M m; 
  for (int i = 0; i < 4; i++) m.l[i] = a.l[i] & b.l[i]; CK("&", m, x & y);
  for (int i = 0; i < 4; i++) m.l[i] = a.l[i] | b.l[i]; CK("|", m, x | y);
  for (int i = 0; i < 4; i++) m.l[i] = a.l[i] ^ b.l[i]; CK("^", m, x ^ y);
  int c = scmp(a, b);
  CKB("<", c < 0, x < y); CKB("<=", c <= 0, x <= y); CKB(">", c > 0, x > y); CKB(">=", c >= 0, x >= y); CKB("==", c == 0, x == y); CKB("!=", c != 0, x != y);
  int256_t t;
  t = x; t += y; CK("+=", add(a, b), t); t = x; t -= y; CK("-=", sub(a, b), t); t = x; t *= y; CK("*=", mul(a, b), t);
  if (divs && !eq(b, zero())) {
    M r, q = udivmod(mabs(a), mabs(b), r);
    if (neg(a) != neg(b)) q = negate(q);
    if (neg(a)) r = negate(r);
    CK("/", q, x / y); CK("%", r, x % y);
    t = x; t /= y; CK("/=", q, t); t = x; t %= y; CK("%=", r, t);
  }
  H::distinct++;
}
template <class T> static void mixed(const M& a, const char* tn) {
  int256_t x = mk(a);
  std::vector<T> vs = {0, 1, 2, (T) 10, std::is_same<T, int128_t>::value ? (T) prt::numeric_limits<int128_t>::max() : std::is_same<T, uint128_t>::value ? (T) prt::numeric_limits<uint128_t>::max() : std::numeric_limits<T>::max(), (T) -1, (T) -2, (T) ((T) 1 << (sizeof(T) * 8 - 1)), (T) 0x7f, (T) ((T) 1 << (sizeof(T) * 4))};
  for (T s : vs) {
    M b; bool n = s < 0; unsigned __int128 u = (unsigned __int128) s;
    if (!n && sizeof(T) < 16) u = (unsigned __int128) s;
    b.l[0] = (uint64_t) u; b.l[1] = (uint64_t) (u >> 64); b.l[2] = b.l[3] = n ? ~0ull : 0;
    M g = get(int256_t(s)); H::evals++; if (!eq(g, b)) bad("construct from narrower type", b, b, b, g);
    CK("+ narrow", add(a, b), x + s); CK("- narrow", sub(a, b), x - s); CK("* narrow", mul(a, b), x * s);
    int256_t t = x; t += s; CK("+= narrow", add(a, b), t); t = x; t -= s; CK("-= narrow", sub(a, b), t); t = x; t *= s; CK("*= narrow", mul(a, b), t);
    int c = scmp(a, b);
    CKB("< narrow", c < 0, x < s); CKB("<= narrow", c <= 0, x <= s); CKB("> narrow", c > 0, x > s); CKB(">= narrow", c >= 0, x >= s); CKB("== narrow", c == 0, x == s); CKB("!= narrow", c != 0, x != s);
    M m; for (int i = 0; i < 4; i++) m.l[i] = a.l[i] & b.l[i]; CK("& narrow", m, x & s);
    for (int i = 0; i < 4; i++) m.l[i] = a.l[i] | b.l[i]; CK("| narrow", m, x | s);
    for (int i = 0; i < 4; i++) m.l[i] = a.l[i] ^ b.l[i]; CK("^ narrow", m, x ^ s);
    if (!eq(b, zero())) {
      M r, q = udivmod(mabs(a), mabs(b), r); if (neg(a) != neg(b)) q = negate(q); if (neg(a)) r = negate(r);
      CK("/ narrow", q, x / s); CK("% narrow", r, x % s);
    }
  }
  // conversion keeps the value modulo 2^width
  unsigned __int128 lo = ((unsigned __int128) a.l[1] << 64) | a.l[0];
  H::evals++; if ((T) x != (T) lo) H::viol("int256: conversion of %s to %s is wrong", hex(a).c_str(), tn);
}

int main(int argc, char** argv) {
  H::init(argc, argv);
  std::vector<M> V = values(false);
  if (H::on("pairs")) {
    uint64_t k = 0;
    if (H::thorough) V = values(true);
    for (size_t i = 0; i < V.size(); i++) {
      if (!H::mine(i)) continue;
      H::begin("all operators on %s and every value", hex(V[i]).c_str());
      for (size_t j = 0; j < V.size(); j++) {
        pair(V[i], V[j], true); k++;
      }
    }
    if (V.size()) H::sample("%s (+,-,*,/,%%,&,|,^,<,...) %s", hex(V[H::shard]).c_str(), hex(V[V.size()/2]).c_str());
  }
  if (H::on("unary")) {
    std::vector<M> W = values(true); W.insert(W.end(), V.begin(), V.end());
    std::vector<unsigned> shifts; for (unsigned n = 0; n <= 257; n++) shifts.push_back(n); for (unsigned n : {300u, 383u, 384u, 512u, 1000u}) shifts.push_back(n);
    for (size_t i = 0; i < W.size(); i++) {
      if (!H::mine(i)) continue;
      M a = W[i], b = a; int256_t x = mk(a), t;
      H::begin("unary and shifts on %s", hex(a).c_str());
      { M g = get(x); if (!eq(g, a)) bad("representation", a, a, a, g); }
      CK("unary -", negate(a), -x); CK("~", inv(a), ~x); CK("unary +", a, +x);
      t = x; CK("++x", add(a, one()), ++t); t = x; CK("x++", a, t++); CK("x++ effect", add(a, one()), t);
      t = x; CK("--x", sub(a, one()), --t); t = x; CK("x--", a, t--); CK("x-- effect", sub(a, one()), t);
      for (unsigned n : shifts) { // 256 and more leave nothing
        b = M{{n, 0, 0, 0}};
        CK("<<", shl(a, n), x << (size_t) n); CK("<< int", shl(a, n), x << (int) n); t = x; t <<= n; CK("<<=", shl(a, n), t);
        if (!neg(a)) { CK(">>", shr(a, n), x >> (size_t) n); CK(">> int", shr(a, n), x >> (int) n); t = x; t >>= n; CK(">>=", shr(a, n), t); }
      }
      H::evals++;
      if (str(x) != dec(a)) H::viol("int256: printing %s gives %s, expected %s", hex(a).c_str(), str(x).c_str(), dec(a).c_str());
      mixed<int8_t>(a, "int8"); mixed<int16_t>(a, "int16"); mixed<int32_t>(a, "int32"); mixed<int64_t>(a, "int64"); mixed<int128_t>(a, "int128");
      mixed<uint8_t>(a, "uint8"); mixed<uint16_t>(a, "uint16"); mixed<uint32_t>(a, "uint32"); mixed<uint64_t>(a, "uint64"); mixed<uint128_t>(a, "uint128");
      // 128-bit printing of the low limb pair
      uint128_t lo = ((uint128_t) a.l[1] << 64) | a.l[0];
      { std::ostringstream o; o << lo; M u{{a.l[0], a.l[1], 0, 0}}; H::evals++; if (o.str() != dec(u)) H::viol("uint128: printing %s gives %s", dec(u).c_str(), o.str().c_str()); }
      { std::ostringstream o; o << (int128_t) lo; uint64_t s = (a.l[1] >> 63) ? ~0ull : 0; M u{{a.l[0], a.l[1], s, s}}; H::evals++; if (o.str() != dec(u)) H::viol("int128: printing %s gives %s", dec(u).c_str(), o.str().c_str()); }
      H::distinct++;
    }
    H::sample("shifts by 0..257 and more, ++, --, -, ~, printing, conversions and mixed operators on %s", hex(W[W.size() / 3]).c_str());
  }
  if (H::on("programs")) {
    // breadth first over operator programs: state = value; every edge executed on the implementation and the model
    std::vector<M> ops; for (M m : {M{{1,0,0,0}}, M{{~0ull,0,0,0}}, M{{0,1,0,0}}, M{{~0ull,~0ull,0,0}}, M{{0,0,1,0}}, M{{10,0,0,0}}, negate(one()), negate(M{{0,0,1,0}}), M{{5,0,0,1ull<<61}}}) ops.push_back(m);
    auto less = [](const M& a, const M& b) { return ucmp(a, b) < 0; };
    std::set<M, decltype(less)> seen(less); std::vector<M> frontier;
    for (M m : {zero(), one(), negate(one()), M{{~0ull,~0ull,0,0}}}) { seen.insert(m); frontier.push_back(m); }
    int depth = H::thorough ? 4 : 3;
    for (int d = 0; d < depth && H::time_left(); d++) {
      std::vector<M> next;
      for (size_t i = 0; i < frontier.size(); i++) {
        M a = frontier[i];
        H::begin("operator programs from %s", hex(a).c_str());
        bool ex = d < 2 || H::mine(i), counts = d >= 2 || H::shard == 0;   // the first levels are common, the rest is divided among the shards
        if (!ex) continue;
        auto step = [&](const char* op, const M& b, const M& want, int256_t got) {
          CK(op, want, got); if (counts) { H::transitions++; H::traces++; }
          if (seen.insert(want).second) { next.push_back(want); if (counts) H::states++; }
        };
        int256_t x = mk(a);
        for (const M& b : ops) {
          int256_t y = mk(b), t;
          t = x; t += y; step("+=", b, add(a, b), t); t = x; t -= y; step("-=", b, sub(a, b), t); t = x; t *= y; step("*=", b, mul(a, b), t);
          { M r, q = udivmod(mabs(a), mabs(b), r); if (neg(a) != neg(b)) q = negate(q); if (neg(a)) r = negate(r); t = x; t /= y; step("/=", b, q, t); t = x; t %= y; step("%=", b, r, t); }
          t = x; t ^= y; M m; for (int k = 0; k < 4; k++) m.l[k] = a.l[k] ^ b.l[k]; step("^=", b, m, t);
        }
        M b = zero(); int256_t t;
        t = x; ++t; step("++", b, add(a, one()), t); t = x; --t; step("--", b, sub(a, one()), t); step("neg", b, negate(a), -x); step("not", b, inv(a), ~x);
        for (unsigned n : {0u, 1u, 64u, 127u, 128u, 129u, 255u}) { b = M{{n,0,0,0}}; t = x; t <<= n; step("<<=", b, shl(a, n), t); if (!neg(a)) { t = x; t >>= n; step(">>=", b, shr(a, n), t); } }
      }
      frontier.swap(next);
    }
    if (H::shard == 0) H::states += 4;
  }
  return H::done();
}
