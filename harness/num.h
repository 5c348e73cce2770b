#pragma once
#include "common.h"
#include "mcrt.h"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <imath.hpp>
#include <PhiTiny.hpp>
#include <S1.hpp>
#include <S2.hpp>
#include <sstream>
#include <string>
#include <algorithm>
#include <set>
#include <map>
using primesum::int256_t;
inline std::string str(const int256_t& v) { std::ostringstream o; o << v; return o.str(); }
inline bool same(const int256_t& v, i128 w) { return v == int256_t(w); }
inline uint64_t isq(uint64_t n) { return O::isqrt(n); }
// the y values the program can choose for x
inline int64_t ymin(uint64_t x) { return (int64_t) O::iroot(x, 3); }
inline int64_t ymax(uint64_t x) { return (int64_t) (O::iroot(x, 3) * O::iroot(x, 6)); }
