// unsigned 256-bit arithmetic for oracles
#pragma once
#include <cstdint>
#include <string>
#include <algorithm>
namespace W {
struct M { uint64_t l[4]; };
inline M of(unsigned __int128 v) { return M{{(uint64_t) v, (uint64_t) (v >> 64), 0, 0}}; }
inline M add(const M& a, const M& b) { M r; unsigned __int128 c = 0; for (int i = 0; i < 4; i++) { c += a.l[i]; c += b.l[i]; r.l[i] = (uint64_t) c; c >>= 64; } return r; }
inline M negate(const M& a) { M r; for (int i = 0; i < 4; i++) r.l[i] = ~a.l[i]; return add(r, M{{1, 0, 0, 0}}); }
inline M sub(const M& a, const M& b) { return add(a, negate(b)); }
inline M mul(const M& a, const M& b) {
  M r{{0, 0, 0, 0}};
  for (int i = 0; i < 4; i++) { unsigned __int128 c = 0; for (int j = 0; i + j < 4; j++) { c += (unsigned __int128) a.l[i] * b.l[j] + r.l[i+j]; r.l[i+j] = (uint64_t) c; c >>= 64; } }
  return r;
}
inline std::string dec(M a) {
  bool n = a.l[3] >> 63; if (n) a = negate(a);
  std::string s;
  while (true) {
    bool z = true; unsigned __int128 r = 0;
    for (int i = 3; i >= 0; i--) { r = (r << 64) | a.l[i]; a.l[i] = (uint64_t) (r / 10); r %= 10; if (a.l[i]) z = false; }
    s += (char) ('0' + (int) r); if (z) break;
  }
  if (n) s += '-';
  std::reverse(s.begin(), s.end()); return s;
}
}
