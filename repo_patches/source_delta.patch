From 5a9b1b7459d0465f66585af03e4ca7a08908d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 01/19] fix: int256_t multiplication of values below -2^127

The fast path treated every operand whose high half is all ones and whose
low half is below 2^64 as a small number, but such an operand is
-2^128 + low: 0 * -2^128 yielded -2^128.
---
 include/int256_t.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index f3b04da..eb983a8 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -159,11 +159,10 @@ public:
 
         if (low <= max64 &&
             other.low <= max64 &&
-            ((high == 0 || ~high == 0) &&
-             (other.high == 0 || ~other.high == 0)))
+            high == 0 &&
+            other.high == 0)
         {
-          return int256_t(low * other.low,
-                          (high == other.high) ? 0 : -1);
+          return int256_t(low * other.low, 0);
         }
         else
         {
-- 
2.43.0


From 716c5145a7a9e1dbdf592c45fdba0f4ebefbfa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 02/19] fix: int256_t shifts by 0 bits

x << 0 and x >> 0 shifted the other 128-bit half by 128 bits, which is
undefined and on x86 ORs one half into the other. Shifts by 256 bits and
more were undefined in the same way.
---
 include/int256_t.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index eb983a8..6ea7c7a 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -212,7 +212,11 @@ public:
 
     int256_t operator<<(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 256)
+            return int256_t(0, 0);
+        else if (bits >= 128)
             return int256_t(0, low << (bits - 128));
         else
             return int256_t(low << bits, (high << bits) | (low >> (128 - bits)));
@@ -220,7 +224,11 @@ public:
 
     int256_t operator>>(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 256)
+            return int256_t(0, 0);
+        else if (bits >= 128)
             return int256_t(high >> (bits - 128), 0);
         else
             return int256_t((low >> bits) | (high << (128 - bits)), high >> bits);
-- 
2.43.0


From 8827233d9f99a24f4f92d53ad47ec8517333e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 03/19] fix: int256_t printing and division of -2^255

The minimum value printed as "-0", its magnitude 2^255 overflowed the
remainder comparison of the long division, and dividing by it looped over
bits that do not exist.
---
 include/int256_t.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index 6ea7c7a..7e5d90a 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -496,7 +496,9 @@ private:
 
     bool get_bit(std::size_t bit) const
     {
-        if (bit >= 128)
+        if (bit >= 256)
+            return false;
+        else if (bit >= 128)
             return (high >> (bit - 128)) & 1;
         else
             return (low >> bit) & 1;
@@ -561,6 +563,11 @@ private:
         {
             return { one, zero };
         }
+        else if (other == min_value())
+        {
+            // other = 2^255 is the largest possible value
+            return { zero, *this };
+        }
         else if (*this == 0 || (*this != min_value() && *this < other))
         {
             return { zero, *this };
@@ -580,7 +587,7 @@ private:
                 remainder <<= 1;
                 remainder.set_bit(0, get_bit(i));
 
-                if (remainder >= other)
+                if (remainder < 0 || remainder >= other)
                 {
                     remainder -= other;
                     quotient.set_bit(i, true);
@@ -626,14 +633,13 @@ inline std::ostream& operator<<(std::ostream& stream, int256_t n)
     std::string str;
 
     if (n < 0)
-    {
         stream << "-";
-        n = -n;
-    }
 
-    while (n > 0)
+    while (n != 0)
     {
-        str += '0' + std::int8_t(n % 10);
+        // -n overflows if n = -2^255
+        int digit = std::int8_t(n % 10);
+        str += (char) ('0' + std::abs(digit));
         n /= 10;
     }
 
-- 
2.43.0


From f7f86df4ebad5cd1b7a7064ab14f709b57e4ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 04/19] fix: int64_cast() must refuse values below -2^63

--lmo* options truncated such values to 64 bits, e.g. 'primesum
0-18446744073709551606 --lmo' computed the result of x = 10.
---
 src/app/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index 1f850d6..27fef15 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -34,6 +34,8 @@ int64_t int64_cast(int128_t x)
 {
   if (x > numeric_limits<int64_t>::max())
     throw primesum_error("this is a 63-bit function, x must be < 2^63");
+  if (x < numeric_limits<int64_t>::min())
+    throw primesum_error("this is a 63-bit function, x must be >= -2^63");
   return (int64_t) x;
 }
 
-- 
2.43.0


From ce1a02108ad63e1de8b2b188136d143c9469fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 05/19] fix: pi_lmo2..5() overflowed 64 bits for x above about
 2*10^10

The sum of the primes below x exceeds 2^63 long before x does: the
special leaves and the result need the wider types which the other
implementations use already.
---
 include/primesum-internal.hpp |  8 ++++----
 src/lmo/pi_lmo2.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo3.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo4.cpp           |  4 ++--
 src/lmo/pi_lmo5.cpp           | 20 ++++++++++----------
 5 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/primesum-internal.hpp b/include/primesum-internal.hpp
index cdcf091..d0071aa 100644
--- a/include/primesum-internal.hpp
+++ b/include/primesum-internal.hpp
@@ -63,13 +63,13 @@ int256_t pi_lmo(int128_t x, int threads);
 
 int256_t pi_lmo1(int128_t x);
 
-int64_t pi_lmo2(int64_t x);
+int256_t pi_lmo2(int64_t x);
 
-int64_t pi_lmo3(int64_t x);
+int256_t pi_lmo3(int64_t x);
 
-int64_t pi_lmo4(int64_t x);
+int256_t pi_lmo4(int64_t x);
 
-int64_t pi_lmo5(int64_t x);
+int256_t pi_lmo5(int64_t x);
 
 int256_t pi_lmo_parallel1(int128_t x, int threads);
 
diff --git a/src/lmo/pi_lmo2.cpp b/src/lmo/pi_lmo2.cpp
index 3b06c1a..91513d8 100644
--- a/src/lmo/pi_lmo2.cpp
+++ b/src/lmo/pi_lmo2.cpp
@@ -32,16 +32,16 @@ namespace {
 /// segmentation). Space complexity: O(x^(2/3) * (log x)^2).
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
   int64_t b = 1;
   vector<char> sieve(limit, 1);
 
@@ -58,7 +58,7 @@ int64_t S2(int64_t x,
   {
     int64_t prime = primes[b];
     int64_t i = 1;
-    int64_t phi = 0;
+    int128_t phi = 0;
 
     for (int64_t m = y; m > y / prime; m--)
     {
@@ -92,7 +92,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(2/3) / (log x)^2) space.
 ///
-int64_t pi_lmo2(int64_t x)
+int256_t pi_lmo2(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -112,7 +112,7 @@ int64_t pi_lmo2(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo3.cpp b/src/lmo/pi_lmo3.cpp
index 82ea770..2de2982 100644
--- a/src/lmo/pi_lmo3.cpp
+++ b/src/lmo/pi_lmo3.cpp
@@ -50,21 +50,21 @@ void cross_off(int64_t prime,
 /// Calculate the contribution of the special leaves.
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t segment_size = next_power_of_2(isqrt(limit));
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
 
   vector<char> sieve(segment_size);
   vector<int64_t> next(primes.begin(), primes.end());
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
   // Segmented sieve of Eratosthenes
   for (int64_t low = 1; low < limit; low += segment_size)
@@ -130,7 +130,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo3(int64_t x)
+int256_t pi_lmo3(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -150,7 +150,7 @@ int64_t pi_lmo3(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo4.cpp b/src/lmo/pi_lmo4.cpp
index 9cb37ad..a5905c2 100644
--- a/src/lmo/pi_lmo4.cpp
+++ b/src/lmo/pi_lmo4.cpp
@@ -140,7 +140,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo4(int64_t x)
+int256_t pi_lmo4(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -160,7 +160,7 @@ int64_t pi_lmo4(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo5.cpp b/src/lmo/pi_lmo5.cpp
index 8f7f444..81ef8ef 100644
--- a/src/lmo/pi_lmo5.cpp
+++ b/src/lmo/pi_lmo5.cpp
@@ -54,12 +54,12 @@ void cross_off(BitSieve& sieve,
 /// @see ../docs/computing-special-leaves.md
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   print("");
   print("=== S2(x, y) ===");
@@ -72,9 +72,9 @@ int64_t S2(int64_t x,
   BitSieve sieve(segment_size);
   Wheel wheel(primes, (int64_t) primes.size(), /*low = */ 1);
   vector<int32_t> pi = generate_pi(y);
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
   int64_t pi_sqrty = pi[isqrt(y)];
   int64_t pi_y = pi[y];
 
@@ -160,7 +160,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3) / log x) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo5(int64_t x)
+int256_t pi_lmo5(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -186,7 +186,7 @@ int64_t pi_lmo5(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
-- 
2.43.0


From be9b0fe24c2513754f1a23a5f71c04b6caf21a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 06/19] fix: calculator must reject values which do not fit the
 integer type

E.g. 'primesum 2^128+10' computed the result of x = 10, 1<<128 shifted
by 0, 5e-1 evaluated to 5 and (-2^126*2)/-1 raised SIGFPE.
---
 include/calculator.hpp | 92 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 78 insertions(+), 14 deletions(-)

diff --git a/include/calculator.hpp b/include/calculator.hpp
index 1a1291c..cb54c6b 100644
--- a/include/calculator.hpp
+++ b/include/calculator.hpp
@@ -183,22 +183,86 @@ private:
   /// top of the stack has lower precedence.
   std::stack<OperatorValue> stack_;
 
+  /// The value of the expression does not fit into type T.
+  void overflow() const
+  {
+    throw calculator::error(expr_, "Range error: integer overflow");
+  }
+
+  T add(T x, T y) const
+  {
+    T res = 0;
+    if (__builtin_add_overflow(x, y, &res))
+      overflow();
+    return res;
+  }
+
+  T sub(T x, T y) const
+  {
+    T res = 0;
+    if (__builtin_sub_overflow(x, y, &res))
+      overflow();
+    return res;
+  }
+
+  T mul(T x, T y) const
+  {
+    T res = 0;
+    if (__builtin_mul_overflow(x, y, &res))
+      overflow();
+    return res;
+  }
+
+  T div(T x, T y) const
+  {
+    // the only quotient that can overflow
+    if (y < 0 && T(y + 1) == 0)
+      return sub(0, x);
+    return x / y;
+  }
+
+  T mod(T x, T y) const
+  {
+    if (y < 0 && T(y + 1) == 0)
+      return 0;
+    return x % y;
+  }
+
+  /// The shift count must be smaller than the number of bits.
+  T checkShift(T n) const
+  {
+    if (n < 0 || n >= (T) (sizeof(T) * 8))
+      overflow();
+    return n;
+  }
+
+  T shl(T x, T n) const
+  {
+    for (checkShift(n); n > 0; n--)
+      x = mul(x, 2);
+    return x;
+  }
+
   /// Exponentiation by squaring, x^n.
-  static T pow(T x, T n)
+  T pow(T x, T n) const
   {
     T res = 1;
 
+    // x^n is not an integer
+    if (n < 0)
+      overflow();
+
     while (n > 0)
     {
       if (n % 2 != 0)
       {
-        res *= x;
+        res = mul(res, x);
         n -= 1;
       }
       n /= 2;
 
       if (n > 0)
-        x *= x;
+        x = mul(x, x);
     }
 
     return res;
@@ -228,15 +292,15 @@ private:
       case OPERATOR_BITWISE_OR:     return v1 | v2;
       case OPERATOR_BITWISE_XOR:    return v1 ^ v2;
       case OPERATOR_BITWISE_AND:    return v1 & v2;
-      case OPERATOR_BITWISE_SHL:    return v1 << v2;
-      case OPERATOR_BITWISE_SHR:    return v1 >> v2;
-      case OPERATOR_ADDITION:       return v1 + v2;
-      case OPERATOR_SUBTRACTION:    return v1 - v2;
-      case OPERATOR_MULTIPLICATION: return v1 * v2;
-      case OPERATOR_DIVISION:       return v1 / checkZero(v2);
-      case OPERATOR_MODULO:         return v1 % checkZero(v2);
+      case OPERATOR_BITWISE_SHL:    return shl(v1, v2);
+      case OPERATOR_BITWISE_SHR:    return v1 >> checkShift(v2);
+      case OPERATOR_ADDITION:       return add(v1, v2);
+      case OPERATOR_SUBTRACTION:    return sub(v1, v2);
+      case OPERATOR_MULTIPLICATION: return mul(v1, v2);
+      case OPERATOR_DIVISION:       return div(v1, checkZero(v2));
+      case OPERATOR_MODULO:         return mod(v1, checkZero(v2));
       case OPERATOR_POWER:          return pow(v1, v2);
-      case OPERATOR_EXPONENT:       return v1 * pow(10, v2);
+      case OPERATOR_EXPONENT:       return mul(v1, pow(10, v2));
       default:                      return 0;
     }
   }
@@ -329,7 +393,7 @@ private:
   {
     T value = 0;
     for (T d; (d = getInteger()) <= 9; index_++)
-      value = value * 10 + d;
+      value = add(mul(value, 10), d);
     return value;
   }
 
@@ -338,7 +402,7 @@ private:
     index_ = index_ + 2;
     T value = 0;
     for (T h; (h = getInteger()) <= 0xf; index_++)
-      value = value * 0x10 + h;
+      value = add(mul(value, 0x10), h);
     return value;
   }
 
@@ -384,7 +448,7 @@ private:
                 index_++; break;
       case '~': index_++; val = ~parseValue(); break;
       case '+': index_++; val =  parseValue(); break;
-      case '-': index_++; val =  parseValue() * static_cast<T>(-1);
+      case '-': index_++; val = sub(0, parseValue());
                 break;
       default : if (!isEnd())
                   unexpected();
-- 
2.43.0


From 18582aa0f34729465c85335755eaa24cd18386b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 07/19] fix: BitSieve::sum() overflowed 64 bits for numbers
 above about 2^59

z = x^(2/3) / alpha may reach 2^61 (see get_max_x), the sum of the
unsieved numbers of one 64-bit word then does not fit into 64 bits.
---
 src/BitSieve.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/BitSieve.cpp b/src/BitSieve.cpp
index fa525dd..6533846 100644
--- a/src/BitSieve.cpp
+++ b/src/BitSieve.cpp
@@ -53,44 +53,44 @@ uint64_t fast_modulo(uint64_t x, uint64_t y)
   return x;
 }
 
-uint64_t sum_bits(uint64_t bits, uint64_t& low)
+int128_t sum_bits(uint64_t bits, uint64_t& low)
 {
   uint64_t bits0 = bits & 0xffff;
   uint64_t bits1 = (bits >> 16) & 0xffff;
   uint64_t bits2 = (bits >> 32) & 0xffff;
   uint64_t bits3 = (bits >> 48);
-  uint64_t sum = 0;
+  int128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (int128_t) low * popcnt64(bits0); low += 32;
+  sum += (int128_t) low * popcnt64(bits1); low += 32;
+  sum += (int128_t) low * popcnt64(bits2); low += 32;
+  sum += (int128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
 
-uint64_t sum_bits(const uint16_t* bits, uint64_t& low)
+int128_t sum_bits(const uint16_t* bits, uint64_t& low)
 {
   uint64_t bits0 = bits[0];
   uint64_t bits1 = bits[1];
   uint64_t bits2 = bits[2];
   uint64_t bits3 = bits[3];
-  uint64_t sum = 0;
+  int128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (int128_t) low * popcnt64(bits0); low += 32;
+  sum += (int128_t) low * popcnt64(bits1); low += 32;
+  sum += (int128_t) low * popcnt64(bits2); low += 32;
+  sum += (int128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
-- 
2.43.0


From 17903496a7dad0f463e1d9adf22d5c57b7075107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:43 +0000
Subject: [PATCH 08/19] fix: hold the status lock until the shared progress has
 been updated

S2Status::is_print() released its try-lock before print() wrote time_ and
percent_, so threads reporting progress raced on both members and a lower
percentage could be printed after a higher one.
---
 src/S2Status.cpp | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/S2Status.cpp b/src/S2Status.cpp
index 4d1a063..0f59fd1 100644
--- a/src/S2Status.cpp
+++ b/src/S2Status.cpp
@@ -45,23 +45,6 @@ double S2Status::skewed_percent(int128_t x, int128_t y)
   return percent;
 }
 
-#if defined(_OPENMP)
-
-bool S2Status::is_print(double time)
-{
-  TryLock lock(lock_);
-  if (lock.ownsLock())
-  {
-    double old = time_;
-    return old == 0 ||
-          (time - old) >= is_print_;
-  }
-
-  return false;
-}
-
-#else
-
 bool S2Status::is_print(double time)
 {
   double old = time_;
@@ -69,10 +52,16 @@ bool S2Status::is_print(double time)
         (time - old) >= is_print_;
 }
 
-#endif
-
 void S2Status::print(int128_t n, int128_t limit)
 {
+#if defined(_OPENMP)
+  // time_ and percent_ are shared by all threads,
+  // the lock must be held until they have been updated
+  TryLock lock(lock_);
+  if (!lock.ownsLock())
+    return;
+#endif
+
   double time = get_time();
 
   if (is_print(time))
-- 
2.43.0


From 39a067b28567553b62022f362c67d6940b88b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 09/19] fix: report an error instead of storing truncated
 primes, and store the largest primes below 2^64

generate_primes() and generate_n_primes() silently truncated primes that do
not fit into the element type of the array. generate_n_primes() also failed
if the prime following the last requested prime was > 2^64.
---
 .../include/primesieve/StorePrimes.hpp        | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/lib/primesieve/include/primesieve/StorePrimes.hpp b/lib/primesieve/include/primesieve/StorePrimes.hpp
index 0154bba..716bb57 100644
--- a/lib/primesieve/include/primesieve/StorePrimes.hpp
+++ b/lib/primesieve/include/primesieve/StorePrimes.hpp
@@ -18,10 +18,23 @@
 #include <algorithm>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <vector>
 
 namespace primesieve {
 
+/// Largest prime (or upper bound) that can
+/// be stored without loss in the type V.
+///
+template <typename V>
+inline uint64_t max_storable_prime()
+{
+  int digits = std::numeric_limits<V>::digits;
+  uint64_t max = std::numeric_limits<uint64_t>::max();
+
+  return (digits < 64) ? max >> (64 - digits) : max;
+}
+
 /// primeCountApprox(x) >= pi(x)
 inline std::size_t prime_count_approx(uint64_t start, uint64_t stop)
 {
@@ -56,9 +69,13 @@ inline void store_primes(uint64_t start,
     primes.reserve(size);
 
     primesieve::iterator it(start, stop);
+    uint64_t limit = std::min(stop, max_storable_prime<V>());
     uint64_t prime = it.next_prime();
-    for (; prime <= stop; prime = it.next_prime())
+    for (; prime <= limit; prime = it.next_prime())
       primes.push_back((V) prime);
+
+    if (prime <= stop)
+      throw primesieve_error("prime too large for the type of the primes array");
   }
 }
 
@@ -83,12 +100,19 @@ inline void store_n_primes(uint64_t n,
   uint64_t stop = start + dist;
 
   primesieve::iterator it(start, stop);
-  uint64_t prime = it.next_prime();
-  for (; n > 0; n--, prime = it.next_prime())
-    primes.push_back((V) prime);
+  uint64_t limit = max_storable_prime<V>();
 
-  if (~prime == 0)
-    throw primesieve_error("cannot generate primes > 2^64");
+  for (; n > 0; n--)
+  {
+    uint64_t prime = it.next_prime();
+
+    if (~prime == 0)
+      throw primesieve_error("cannot generate primes > 2^64");
+    if (prime > limit)
+      throw primesieve_error("prime too large for the type of the primes array");
+
+    primes.push_back((V) prime);
+  }
 }
 
 } // namespace
-- 
2.43.0


From 6c0d4057269a035f51ebb92d0f319c055e05a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 10/19] fix: integer overflow in malloc_vector::resize()

primesieve_generate_n_primes() with a huge n allocated too small an array
(n * sizeof(T) modulo 2^64) and wrote primes beyond its end.
---
 lib/primesieve/include/primesieve/malloc_vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/primesieve/include/primesieve/malloc_vector.hpp b/lib/primesieve/include/primesieve/malloc_vector.hpp
index e3b4951..9453713 100644
--- a/lib/primesieve/include/primesieve/malloc_vector.hpp
+++ b/lib/primesieve/include/primesieve/malloc_vector.hpp
@@ -13,6 +13,7 @@
 #include <stdlib.h>
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 namespace {
@@ -57,6 +58,11 @@ public:
   void resize(std::size_t n)
   {
     n = std::max(n, (std::size_t) 16);
+
+    // prevent integer overflow
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T))
+      throw std::bad_alloc();
+
     T* new_array = (T*) realloc((void*) array_, n * sizeof(T));
 
     if (!new_array)
-- 
2.43.0


From 21fb2060fff172711dbac3773f03de28e94917a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 11/19] fix: report running out of memory while formatting
 results

A failed allocation inside std::ostringstream only sets its badbit, so
numbers and printed primes were silently truncated.
---
 lib/primesieve/src/PrintPrimes.cpp | 2 ++
 src/primesum.cpp                   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/primesieve/src/PrintPrimes.cpp b/lib/primesieve/src/PrintPrimes.cpp
index 7d896e2..f33bbce 100644
--- a/lib/primesieve/src/PrintPrimes.cpp
+++ b/lib/primesieve/src/PrintPrimes.cpp
@@ -154,6 +154,7 @@ void PrintPrimes::printPrimes() const
     uint64_t size = i + (1 << 16);
     size = std::min(size, sieveSize_);
     ostringstream primes;
+    primes.exceptions(ostringstream::badbit);
 
     for (; i < size; i += 8)
     {
@@ -175,6 +176,7 @@ void PrintPrimes::printkTuplets() const
   unsigned i = 1;
   uint64_t low = low_;
   ostringstream kTuplets;
+  kTuplets.exceptions(ostringstream::badbit);
 
   while (!ps_.isPrint(i))
     i++;
diff --git a/src/primesum.cpp b/src/primesum.cpp
index 48e1314..9adae4e 100644
--- a/src/primesum.cpp
+++ b/src/primesum.cpp
@@ -71,6 +71,7 @@ string pi(const string& x, int threads)
 {
   int256_t pi_x = pi(to_int128(x), threads);
   ostringstream oss;
+  oss.exceptions(ostringstream::badbit);
   oss << pi_x;
   return oss.str();
 }
@@ -129,6 +130,7 @@ int128_t prime_sum_tiny(int64_t x)
 string get_max_x(double alpha)
 {
   ostringstream oss;
+  oss.exceptions(ostringstream::badbit);
 
   // primesum is limited by:
   // z < 2^62, with z = x^(2/3) / alpha
-- 
2.43.0


From 108615ef85ffdf5a49b3b9d16912a90df9a6cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 12/19] fix: primesieve_iterator error path used an unset
 primes pointer

If the first allocation failed primesieve_next_prime() read through an
uninitialized pointer, and the error path itself needed memory.
---
 lib/primesieve/src/iterator-c.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/primesieve/src/iterator-c.cpp b/lib/primesieve/src/iterator-c.cpp
index cc8d548..2be5d06 100644
--- a/lib/primesieve/src/iterator-c.cpp
+++ b/lib/primesieve/src/iterator-c.cpp
@@ -42,6 +42,21 @@ vector<uint64_t>& getPrimes(primesieve_iterator* it)
   return *primes;
 }
 
+/// In case of an error the iterator returns PRIMESIEVE_ERROR.
+/// No memory is allocated here as we may have run out of memory.
+void setError(primesieve_iterator* it)
+{
+  static uint64_t error[1] = { PRIMESIEVE_ERROR };
+
+  clearPrimeGenerator(it);
+  getPrimes(it).clear();
+  it->primes = error;
+  it->i = 0;
+  it->last_idx = 0;
+  it->is_error = true;
+  errno = EDOM;
+}
+
 } // namespace
 
 /// C constructor
@@ -122,12 +137,8 @@ void primesieve_generate_next_primes(primesieve_iterator* it)
   }
   catch (exception&)
   {
-    clearPrimeGenerator(it);
-    primes.resize(1);
-    primes[0] = PRIMESIEVE_ERROR;
-    it->last_idx = 1;
-    it->is_error = true;
-    errno = EDOM;
+    setError(it);
+    return;
   }
 
   it->i = 0;
@@ -159,11 +170,8 @@ void primesieve_generate_prev_primes(primesieve_iterator* it)
   }
   catch (exception&)
   {
-    clearPrimeGenerator(it);
-    primes.resize(1);
-    primes[0] = PRIMESIEVE_ERROR;
-    it->is_error = true;
-    errno = EDOM;
+    setError(it);
+    return;
   }
 
   it->primes = &primes[0];
-- 
2.43.0


From 9be58f5fe512ad7c6f0f79242905f56b5ba801ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 13/19] fix: nth_prime() looped forever for n below about
 -4.2e17

The estimated distance exceeds 2^64 there and was truncated to 64 bits,
so that the search did not get closer to 0.
---
 lib/primesieve/src/nthPrime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/primesieve/src/nthPrime.cpp b/lib/primesieve/src/nthPrime.cpp
index b03de60..54cd682 100644
--- a/lib/primesieve/src/nthPrime.cpp
+++ b/lib/primesieve/src/nthPrime.cpp
@@ -91,6 +91,10 @@ uint64_t nthPrimeDist(int64_t n, int64_t count, uint64_t start)
   double primeGap = maxPrimeGap(startPix);
   dist = max(dist, primeGap);
 
+  // avoid integer overflow, 2^64 = 18446744073709551616
+  if (dist >= 18446744073709551616.0)
+    return get_max_stop();
+
   return (uint64_t) dist;
 }
 
-- 
2.43.0


From 1cba56fa355f66d49e045705a1a8d7fea5f3167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 14/19] fix: negation of the smallest integer is undefined

operator<<(int128_t) and the conversions of int256_t to signed integers
negated -2^127, -2^63 and -2^31.
---
 include/int128_t.hpp |  8 +++++---
 include/int256_t.hpp | 25 +++++--------------------
 2 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/include/int128_t.hpp b/include/int128_t.hpp
index 534f5cf..3bcc52b 100644
--- a/include/int128_t.hpp
+++ b/include/int128_t.hpp
@@ -52,10 +52,12 @@ inline std::ostream& operator<<(std::ostream& stream, int128_t n)
 {
   if (n < 0)
   {
-    stream << "-";
-    n = -n;
+    // negate as unsigned, -n overflows for n = -2^127
+    stream << "-" << -(uint128_t) n;
   }
-  stream << (uint128_t) n;
+  else
+    stream << (uint128_t) n;
+
   return stream;
 }
 
diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index 7e5d90a..c3ca311 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -408,42 +408,27 @@ public:
 
     operator std::int8_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int8_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int8_t>(low);
+        return static_cast<std::int8_t>(low);
     }
 
     operator std::int16_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int16_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int16_t>(low);
+        return static_cast<std::int16_t>(low);
     }
 
     operator std::int32_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int32_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int32_t>(low);
+        return static_cast<std::int32_t>(low);
     }
 
     operator std::int64_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int64_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int64_t>(low);
+        return static_cast<std::int64_t>(low);
     }
 
     operator int128_t() const
     {
-        return (*this < 0)
-            ? -static_cast<int128_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<int128_t>(low);
+        return static_cast<int128_t>(low);
     }
 
     operator std::uint8_t() const
-- 
2.43.0


From 954be2ee7ca9526928efe90d2359117276e3aeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 15/19] fix: get_max_x() returned garbage for alpha > 1.3 *
 10^7

---
 src/primesum.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/primesum.cpp b/src/primesum.cpp
index 9adae4e..c0beabf 100644
--- a/src/primesum.cpp
+++ b/src/primesum.cpp
@@ -139,7 +139,12 @@ string get_max_x(double alpha)
 
   // safety buffer: use 61 instead of 62 
   double max_x = pow(pow(2.0, 61.0) * alpha, 3.0 / 2.0);
-  oss << (int128_t) max_x; 
+
+  // x is a 128-bit signed integer
+  if (max_x >= pow(2.0, 127.0))
+    oss << prt::numeric_limits<int128_t>::max();
+  else
+    oss << (int128_t) max_x;
 
   return oss.str();
 }
-- 
2.43.0


From 6af309330214c71c6e6dd5532603520925670543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 16/19] fix: primesieve evaluated numbers >= 2^64 modulo 2^64

E.g. 'primesieve 2^64+100' counted the primes <= 100, '-t2^32' and
'100 -d2^64-50' wrapped around, '5e-1' was 5. As in primesum numbers
which do not fit are now refused.
---
 .../include/primesieve/calculator.hpp         | 92 ++++++++++++++++---
 lib/primesieve/src/app/cmdoptions.cpp         | 14 ++-
 2 files changed, 91 insertions(+), 15 deletions(-)

diff --git a/lib/primesieve/include/primesieve/calculator.hpp b/lib/primesieve/include/primesieve/calculator.hpp
index 1a1291c..cb54c6b 100644
--- a/lib/primesieve/include/primesieve/calculator.hpp
+++ b/lib/primesieve/include/primesieve/calculator.hpp
@@ -183,22 +183,86 @@ private:
   /// top of the stack has lower precedence.
   std::stack<OperatorValue> stack_;
 
+  /// The value of the expression does not fit into type T.
+  void overflow() const
+  {
+    throw calculator::error(expr_, "Range error: integer overflow");
+  }
+
+  T add(T x, T y) const
+  {
+    T res = 0;
+    if (__builtin_add_overflow(x, y, &res))
+      overflow();
+    return res;
+  }
+
+  T sub(T x, T y) const
+  {
+    T res = 0;
+    if (__builtin_sub_overflow(x, y, &res))
+      overflow();
+    return res;
+  }
+
+  T mul(T x, T y) const
+  {
+    T res = 0;
+    if (__builtin_mul_overflow(x, y, &res))
+      overflow();
+    return res;
+  }
+
+  T div(T x, T y) const
+  {
+    // the only quotient that can overflow
+    if (y < 0 && T(y + 1) == 0)
+      return sub(0, x);
+    return x / y;
+  }
+
+  T mod(T x, T y) const
+  {
+    if (y < 0 && T(y + 1) == 0)
+      return 0;
+    return x % y;
+  }
+
+  /// The shift count must be smaller than the number of bits.
+  T checkShift(T n) const
+  {
+    if (n < 0 || n >= (T) (sizeof(T) * 8))
+      overflow();
+    return n;
+  }
+
+  T shl(T x, T n) const
+  {
+    for (checkShift(n); n > 0; n--)
+      x = mul(x, 2);
+    return x;
+  }
+
   /// Exponentiation by squaring, x^n.
-  static T pow(T x, T n)
+  T pow(T x, T n) const
   {
     T res = 1;
 
+    // x^n is not an integer
+    if (n < 0)
+      overflow();
+
     while (n > 0)
     {
       if (n % 2 != 0)
       {
-        res *= x;
+        res = mul(res, x);
         n -= 1;
       }
       n /= 2;
 
       if (n > 0)
-        x *= x;
+        x = mul(x, x);
     }
 
     return res;
@@ -228,15 +292,15 @@ private:
       case OPERATOR_BITWISE_OR:     return v1 | v2;
       case OPERATOR_BITWISE_XOR:    return v1 ^ v2;
       case OPERATOR_BITWISE_AND:    return v1 & v2;
-      case OPERATOR_BITWISE_SHL:    return v1 << v2;
-      case OPERATOR_BITWISE_SHR:    return v1 >> v2;
-      case OPERATOR_ADDITION:       return v1 + v2;
-      case OPERATOR_SUBTRACTION:    return v1 - v2;
-      case OPERATOR_MULTIPLICATION: return v1 * v2;
-      case OPERATOR_DIVISION:       return v1 / checkZero(v2);
-      case OPERATOR_MODULO:         return v1 % checkZero(v2);
+      case OPERATOR_BITWISE_SHL:    return shl(v1, v2);
+      case OPERATOR_BITWISE_SHR:    return v1 >> checkShift(v2);
+      case OPERATOR_ADDITION:       return add(v1, v2);
+      case OPERATOR_SUBTRACTION:    return sub(v1, v2);
+      case OPERATOR_MULTIPLICATION: return mul(v1, v2);
+      case OPERATOR_DIVISION:       return div(v1, checkZero(v2));
+      case OPERATOR_MODULO:         return mod(v1, checkZero(v2));
       case OPERATOR_POWER:          return pow(v1, v2);
-      case OPERATOR_EXPONENT:       return v1 * pow(10, v2);
+      case OPERATOR_EXPONENT:       return mul(v1, pow(10, v2));
       default:                      return 0;
     }
   }
@@ -329,7 +393,7 @@ private:
   {
     T value = 0;
     for (T d; (d = getInteger()) <= 9; index_++)
-      value = value * 10 + d;
+      value = add(mul(value, 10), d);
     return value;
   }
 
@@ -338,7 +402,7 @@ private:
     index_ = index_ + 2;
     T value = 0;
     for (T h; (h = getInteger()) <= 0xf; index_++)
-      value = value * 0x10 + h;
+      value = add(mul(value, 0x10), h);
     return value;
   }
 
@@ -384,7 +448,7 @@ private:
                 index_++; break;
       case '~': index_++; val = ~parseValue(); break;
       case '+': index_++; val =  parseValue(); break;
-      case '-': index_++; val =  parseValue() * static_cast<T>(-1);
+      case '-': index_++; val = sub(0, parseValue());
                 break;
       default : if (!isEnd())
                   unexpected();
diff --git a/lib/primesieve/src/app/cmdoptions.cpp b/lib/primesieve/src/app/cmdoptions.cpp
index f1bd247..7d233c7 100644
--- a/lib/primesieve/src/app/cmdoptions.cpp
+++ b/lib/primesieve/src/app/cmdoptions.cpp
@@ -20,6 +20,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <map>
+#include <stdexcept>
 #include <stdint.h>
 #include <string>
 #include <utility>
@@ -104,7 +105,15 @@ struct Option
   T getValue() const
   {
     try {
-      return calculator::eval<T>(val);;
+#if defined(__SIZEOF_INT128__)
+      // Intermediate results may be larger than T, e.g. 2^64-1
+      __int128_t n = calculator::eval<__int128_t>(val);
+      if ((T) n != n)
+        throw out_of_range(val);
+      return (T) n;
+#else
+      return calculator::eval<T>(val);
+#endif
     }
     catch (std::exception&) {
       throw primesieve_error("invalid option '" + opt + "=" + val + "'");
@@ -300,6 +309,9 @@ void optionDistance(Option& opt,
   if (!numbers.empty())
     start = numbers[0];
 
+  if (start + val < start)
+    throw primesieve_error("invalid option '" + opt.opt + "=" + opt.val + "'");
+
   numbers.push_back(start + val);
 }
 
-- 
2.43.0


From 7996f6e374d2d24ba1a788611387211828ed260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 17/19] fix: nthPrimeDist() cast 2^64 to uint64_t for start
 near 2^64

---
 lib/primesieve/src/nthPrime.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/primesieve/src/nthPrime.cpp b/lib/primesieve/src/nthPrime.cpp
index 54cd682..c568fdb 100644
--- a/lib/primesieve/src/nthPrime.cpp
+++ b/lib/primesieve/src/nthPrime.cpp
@@ -63,18 +63,16 @@ uint64_t nthPrimeDist(int64_t n, int64_t count, uint64_t start)
   double loglogx = log(logx);
   double pix = x * (logx + loglogx - 1);
 
+  double st = (double) start;
+
   // correct start if sieving backwards to
   // get more accurate approximation
   if (count >= n)
-  {
-    double st = start - pix;
-    st = max(0.0, st);
-    start = (uint64_t) st;
-  }
+    st = max(0.0, st - pix);
 
   // approximate the nth prime using:
   // start + n * log(start + pi(n) / loglog(n))
-  double startPix = start + pix / loglogx;
+  double startPix = st + pix / loglogx;
   startPix = max(4.0, startPix);
   double logStartPix = log(startPix);
   double dist = max(pix, x * logStartPix);
-- 
2.43.0


From 31cb3a8f4affe204763efef0015ee6c72c323d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 18/19] fix: primesieve -d before START sieved [DIST, START]

'primesieve -d50 100' counted the primes inside [50, 100] instead of
[100, 150]. The distance is now added once START is known.
---
 lib/primesieve/src/app/cmdoptions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/primesieve/src/app/cmdoptions.cpp b/lib/primesieve/src/app/cmdoptions.cpp
index 7d233c7..e760ca8 100644
--- a/lib/primesieve/src/app/cmdoptions.cpp
+++ b/lib/primesieve/src/app/cmdoptions.cpp
@@ -400,6 +400,8 @@ CmdOptions parseOptions(int argc, char* argv[])
   if (argc <= 1)
     help(/* exitCode */ 1);
 
+  Option distance;
+
   for (int i = 1; i < argc; i++)
   {
     Option opt = parseOption(argc, argv, i);
@@ -409,7 +411,7 @@ CmdOptions parseOptions(int argc, char* argv[])
     {
       case OPTION_COUNT:     optionCount(opt, opts); break;
       case OPTION_CPU_INFO:  optionCpuInfo(); break;
-      case OPTION_DISTANCE:  optionDistance(opt, opts); break;
+      case OPTION_DISTANCE:  opt.getValue<uint64_t>(); distance = opt; break;
       case OPTION_PRINT:     optionPrint(opt, opts); break;
       case OPTION_SIZE:      opts.sieveSize = opt.getValue<int>(); break;
       case OPTION_THREADS:   opts.threads = opt.getValue<int>(); break;
@@ -424,6 +426,10 @@ CmdOptions parseOptions(int argc, char* argv[])
     }
   }
 
+  // The START number may come after the distance
+  if (!distance.opt.empty())
+    optionDistance(distance, opts);
+
   if (opts.numbers.empty())
     throw primesieve_error("missing STOP number");
 
-- 
2.43.0


From d3a0b8441bfb9343ec5c4c48c11c55900af2cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 19/19] fix: primesieve -n with n >= 2^63 searched backwards

'primesieve 2^64-1 100 -n' printed 97, the first prime < 100. Also
abs(n * 20) overflowed for n > 4.6 * 10^17.
---
 lib/primesieve/src/app/main.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/primesieve/src/app/main.cpp b/lib/primesieve/src/app/main.cpp
index d3b0105..ae572ee 100644
--- a/lib/primesieve/src/app/main.cpp
+++ b/lib/primesieve/src/app/main.cpp
@@ -9,12 +9,16 @@
 ///
 
 #include <primesieve/ParallelSieve.hpp>
+#include <primesieve/pmath.hpp>
+#include <primesieve/primesieve_error.hpp>
 #include "cmdoptions.hpp"
 
 #include <stdint.h>
+#include <algorithm>
 #include <iostream>
 #include <exception>
 #include <iomanip>
+#include <limits>
 #include <string>
 
 using namespace std;
@@ -92,11 +96,17 @@ void nthPrime(CmdOptions& opt)
   if (numbers.size() < 2)
     numbers.push_back(0);
 
+  // nthPrime() takes a signed n, a negative
+  // n would search the primes < start
+  if (numbers[0] > (uint64_t) numeric_limits<int64_t>::max())
+    throw primesieve_error("nth prime > 2^64");
+
   int64_t n = numbers[0];
   uint64_t start = numbers[1];
   uint64_t nthPrime = 0;
+  uint64_t maxDist = numeric_limits<uint64_t>::max() / 20;
   ps.setStart(start);
-  ps.setStop(start + abs(n * 20));
+  ps.setStop(checkedAdd(start, min(numbers[0], maxDist) * 20));
 
   if (!opt.quiet)
     printSettings(ps);
-- 
2.43.0

