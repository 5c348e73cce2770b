#pragma once
#include "common.h"
#include <optional>
// ---- independent evaluator: precedence climbing over exact integers with a range
struct Ev {
  const std::string& s; size_t i = 0; i128 lo, hi; int bits;
  struct Bad {};
  Ev(const std::string& s, i128 lo, i128 hi, int bits) : s(s), lo(lo), hi(hi), bits(bits) {}
  i128 fit(i128 v) { if (v < lo || v > hi) throw Bad(); return v; }
  i128 add(i128 a, i128 b) { i128 r; if (__builtin_add_overflow(a, b, &r)) throw Bad(); return fit(r); }
  i128 mul(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw Bad(); return fit(r); }
  i128 neg(i128 a) { i128 r; if (__builtin_sub_overflow((i128) 0, a, &r)) throw Bad(); return fit(r); }
  i128 pw(i128 a, i128 n) {
    if (n < 0) throw Bad();
    if (a == 0) return n == 0 ? 1 : 0; if (a == 1) return 1; if (a == -1) return n % 2 ? -1 : 1;
    if (n > 200) throw Bad();
    i128 r = 1; for (; n > 0; n--) r = mul(r, a); return r;
  }
  void ws() { while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++; }
  char at(size_t k) { return k < s.size() ? s[k] : 0; }
  static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
  i128 value() {
    ws(); char c = at(i);
    if (c == '(') { i++; i128 v = expr(0); ws(); if (at(i) != ')' || i >= s.size()) throw Bad(); i++; return v; }
    if (c == '+') { i++; return value(); }
    if (c == '-') { i++; return neg(value()); }
    if (c == '~') { i++; return fit(~value()); }
    if (c == '0' && (at(i + 1) == 'x' || at(i + 1) == 'X') && dig(at(i + 2)) < 16) { i += 2; i128 v = 0; for (; dig(at(i)) < 16; i++) v = add(mul(v, 16), dig(at(i))); return v; }
    if (dig(c) < 10) { i128 v = 0; for (; dig(at(i)) < 10; i++) v = add(mul(v, 10), dig(at(i))); return v; }
    throw Bad();
  }
  // 0 none; otherwise precedence
  int op(int& o, size_t& len) {
    char c = at(i), d = at(i + 1); len = 1; o = c;
    switch (c) {
      case '|': return 1; case '&': return 2;
      case '<': if (d != '<') throw Bad(); len = 2; return 3;
      case '>': if (d != '>') throw Bad(); len = 2; return 3;
      case '+': case '-': return 4;
      case '/': case '%': return 5;
      case '*': if (d == '*') { o = '^'; len = 2; return 6; } return 5;
      case '^': return 6;
      case 'e': case 'E': o = 'e'; return 7;
    }
    return 0;
  }
  i128 expr(int minp) {
    i128 l = value();
    while (true) {
      ws(); int o; size_t len; int p = op(o, len);
      if (!p || p < minp) return l;
      if (i >= s.size()) return l;
      i += len;
      i128 r = expr(p >= 6 ? p : p + 1); // powers and exponents associate to the right
      switch (o) {
        case '|': l = l | r; break; case '&': l = l & r; break;
        case '<': if (r < 0 || r >= bits) throw Bad(); for (i128 k = 0; k < r; k++) l = mul(l, 2); break;
        case '>': if (r < 0 || r >= bits) throw Bad(); for (i128 k = 0; k < r; k++) l = l / 2 - (l % 2 < 0); break;
        case '+': l = add(l, r); break;
        case '-': { i128 q; if (__builtin_sub_overflow(l, r, &q)) throw Bad(); l = fit(q); break; }
        case '*': l = mul(l, r); break;
        case '/': if (r == 0) throw Bad(); if (r == -1) l = neg(l); else l = l / r; break;
        case '%': if (r == 0) throw Bad(); if (r == -1) l = 0; else l = l % r; break;
        case '^': l = pw(l, r); break;
        case 'e': l = mul(l, pw(10, r)); break;
      }
    }
  }
  std::optional<i128> run() { try { i128 v = expr(0); if (i < s.size()) return {}; return v; } catch (Bad&) { return {}; } }
};
