From 050eea5986842b1d7f634ec950a51bbbfd83ae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 01/69] fix: (/ n d) of small integers returns an integer when
 the quotient is integral

---
 src/kernel/number.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 78f6b73..b5e83e0 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -325,8 +325,8 @@ namespace meevax::inline kernel
       if constexpr (std::is_same_v<T, widen_integer> and
                     std::is_same_v<U, widen_integer>)
       {
-        return make<ratio>(large_integer(x),
-                           large_integer(y));
+        return ratio(large_integer(x),
+                     large_integer(y));
       }
       else
       {
-- 
2.43.0


From fffd7e93f3bea51284839e79ee4ae9cb941eb71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 02/69] fix: floor, ceiling, truncate and round of exact
 rationals are exact (so is quotient), round ties to even

---
 src/kernel/number/nearest_integer.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/kernel/number/nearest_integer.cpp b/src/kernel/number/nearest_integer.cpp
index 9d2e5d7..b6dc8a4 100644
--- a/src/kernel/number/nearest_integer.cpp
+++ b/src/kernel/number/nearest_integer.cpp
@@ -18,7 +18,19 @@
 
 namespace meevax::inline kernel::number
 {
-  #define DEFINE(NAME, CMATH)                                                  \
+  auto mpz_round_q(mpz_t q, mpz_t const n, mpz_t const d) -> void // round half to even (d > 0)
+  {
+    large_integer r {};
+    mpz_fdiv_qr(q, r.value, n, d);
+    mpz_mul_2exp(r.value, r.value, 1);
+
+    if (auto c = mpz_cmp(r.value, d); 0 < c or (c == 0 and mpz_odd_p(q)))
+    {
+      mpz_add_ui(q, q, 1);
+    }
+  }
+
+  #define DEFINE(NAME, CMATH, DIVIDE)                                          \
   auto NAME(object const& x) -> object                                         \
   {                                                                            \
     auto f = []<typename T>(T const& x)                                        \
@@ -29,7 +41,9 @@ namespace meevax::inline kernel::number
       }                                                                        \
       else if constexpr (std::is_same_v<T, ratio>)                             \
       {                                                                        \
-        return large_integer(CMATH(static_cast<double>(x)));                   \
+        large_integer i {};                                                    \
+        DIVIDE(i.value, mpq_numref(x.value), mpq_denref(x.value));             \
+        return i;                                                              \
       }                                                                        \
       else if constexpr (std::is_same_v<T, large_integer> or std::is_integral_v<T>) \
       {                                                                        \
@@ -45,8 +59,8 @@ namespace meevax::inline kernel::number
     return apply_to<complex_number>(f, x);                                     \
   }
 
-  DEFINE(floor,    std::floor)
-  DEFINE(ceiling,  std::ceil)
-  DEFINE(truncate, std::trunc)
-  DEFINE(round,    std::round)
+  DEFINE(floor,    std::floor,     mpz_fdiv_q)
+  DEFINE(ceiling,  std::ceil,      mpz_cdiv_q)
+  DEFINE(truncate, std::trunc,     mpz_tdiv_q)
+  DEFINE(round,    std::nearbyint, mpz_round_q)
 } // namespace meevax::kernel::number
-- 
2.43.0


From 16c0a839b2a314696dd28fbf441ee553f3df0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 03/69] fix: gcd and lcm of one argument are non-negative, lcm
 of zeros is zero

---
 src/kernel/boot.cpp   | 4 ++--
 src/kernel/number.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 898916c..d68d341 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -213,8 +213,8 @@ namespace meevax::inline kernel
       { "quotient",                      [](let const& xs) { return quotient(car(xs), cadr(xs)); } },
       { "remainder",                     [](let const& xs) { return remainder(car(xs), cadr(xs)); } },
       { "modulo",                        [](let const& xs) { return modulo(car(xs), cadr(xs)); } },
-      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
-      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
+      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
+      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
       { "numerator",                     [](let const& xs) { return numerator(car(xs)); } },
       { "denominator",                   [](let const& xs) { return denominator(car(xs)); } },
       { "floor",                         [](let const& xs) { return floor(car(xs)); } },
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index b5e83e0..1dc11f5 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -803,7 +803,7 @@ namespace number
 
   auto lcm(object const& x, object const& y) -> object
   {
-    return abs(quotient(x * y, gcd(x, y)));
+    return is_zero(x) or is_zero(y) ? x * y : abs(quotient(x * y, gcd(x, y)));
   }
 
   auto real(object const& x) -> object
-- 
2.43.0


From bf9f0a5d500778e91edda658ce5079c12a746483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 04/69] fix: magnitude of a negative real is positive, angle is
 atan of imaginary over real part

---
 src/kernel/number.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 1dc11f5..5c2e863 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -842,24 +842,12 @@ namespace number
 
   auto magnitude(object const& x) -> object
   {
-    auto f = []<typename T>(T const& x)
-    {
-      if constexpr (std::is_same_v<T, complex>)
-      {
-        return sqrt(x.real() * x.real() + x.imag() * x.imag());
-      }
-      else
-      {
-        return x;
-      }
-    };
-
-    return apply_to<complex_number>(f, x);
+    return abs(x);
   }
 
   auto angle(object const& x) -> object
   {
-    return atan2(real(x), imag(x));
+    return atan2(imag(x), real(x));
   }
 
   auto numerator(object const& x) -> object
-- 
2.43.0


From a11a38089fedf45c6db8e5a25558f64d349240b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 05/69] fix: expt of exact numbers with exact integer exponents
 is exact

---
 src/kernel/number/power.cpp | 47 +++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/kernel/number/power.cpp b/src/kernel/number/power.cpp
index 0953a43..749e3bf 100644
--- a/src/kernel/number/power.cpp
+++ b/src/kernel/number/power.cpp
@@ -14,10 +14,37 @@
    limitations under the License.
 */
 
+#include <meevax/kernel/list.hpp>
 #include <meevax/kernel/number/power.hpp>
 
 namespace meevax::inline kernel::number
 {
+  auto exact_pow(ratio x, large_integer const& y) -> ratio
+  {
+    if (mpz_sgn(y.value) < 0)
+    {
+      if (mpq_sgn(x.value) == 0)
+      {
+        throw error(make<string>("division by zero"), cons(e0, make<large_integer>(y), unit));
+      }
+
+      mpq_inv(x.value, x.value);
+    }
+
+    large_integer n {};
+    mpz_abs(n.value, y.value);
+
+    if (not mpz_fits_ulong_p(n.value))
+    {
+      throw error(make<string>("exponent too large"), cons(make<large_integer>(y), unit));
+    }
+
+    mpz_pow_ui(mpq_numref(x.value), mpq_numref(x.value), mpz_get_ui(n.value));
+    mpz_pow_ui(mpq_denref(x.value), mpq_denref(x.value), mpz_get_ui(n.value));
+
+    return x;
+  }
+
   auto pow(object const& x, object const& y) -> object
   {
     auto f = []<typename T, typename U>(T const& x, U const& y)
@@ -43,24 +70,10 @@ namespace meevax::inline kernel::number
         return complex(make<double>(z.real()),
                        make<double>(z.imag()));
       }
-      else if constexpr (std::is_same_v<T, widen_integer> and
-                         std::is_same_v<U, widen_integer>)
-      {
-        if (auto result = std::pow(x, y); std::numeric_limits<small_integer>::min() <= result and result <= std::numeric_limits<small_integer>::max())
-        {
-          return make<small_integer>(static_cast<small_integer>(result));
-        }
-        else
-        {
-          return make<large_integer>(result);
-        }
-      }
-      else if constexpr (std::is_same_v<T, large_integer> and
-                         std::is_same_v<U, large_integer>)
+      else if constexpr ((std::is_same_v<T, widen_integer> or std::is_same_v<T, large_integer> or std::is_same_v<T, ratio>) and
+                         (std::is_same_v<U, widen_integer> or std::is_same_v<U, large_integer>))
       {
-        large_integer result {};
-        mpz_pow_ui(result.value, x.value, static_cast<unsigned long>(y));
-        return result;
+        return exact_pow(ratio(x), large_integer(y));
       }
       else
       {
-- 
2.43.0


From ae65ca3b08f7dc8829221cfb545adf3be2db5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 06/69] fix: exact division by zero is a catchable error
 instead of SIGFPE

---
 src/kernel/number.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 5c2e863..a14a89b 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -17,6 +17,7 @@
 #include <charconv>
 #include <meevax/kernel/error.hpp>
 #include <meevax/kernel/ghost.hpp>
+#include <meevax/kernel/list.hpp>
 #include <meevax/kernel/number.hpp>
 #include <meevax/kernel/number/nearest_integer.hpp>
 #include <meevax/kernel/number/power.hpp>
@@ -316,12 +317,30 @@ namespace meevax::inline kernel
     return apply_to<complex_numbers>(std::multiplies(), x, y);
   }
 
+  constexpr auto check_divisor = []<typename T, typename U>(T const& x, U const& y)
+  {
+    constexpr auto is_exact = []<typename X>(X const*)
+    {
+      return std::is_same_v<X, widen_integer> or std::is_same_v<X, large_integer> or std::is_same_v<X, ratio>;
+    };
+
+    if constexpr (is_exact(static_cast<T const*>(nullptr)) and is_exact(static_cast<U const*>(nullptr)))
+    {
+      if (y == 0_i64)
+      {
+        throw error(make<string>("division by zero"), cons(number::canonicalize(x), number::canonicalize(y), unit));
+      }
+    }
+  };
+
   auto operator /(object const& x, object const& y) -> object
   {
     using namespace number;
 
     auto f = []<typename T, typename U>(T const& x, U const& y)
     {
+      check_divisor(x, y);
+
       if constexpr (std::is_same_v<T, widen_integer> and
                     std::is_same_v<U, widen_integer>)
       {
@@ -343,6 +362,8 @@ namespace meevax::inline kernel
 
     auto f = []<typename T, typename U>(T const& x, U const& y)
     {
+      check_divisor(x, y);
+
       if constexpr ((std::is_floating_point_v<T> and std::is_arithmetic_v<U>) or
                     (std::is_floating_point_v<U> and std::is_arithmetic_v<T>))
       {
-- 
2.43.0


From 0a198a74a4285eb9b6778eada3bca02ef4fcf4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 07/69] fix: literals with a plus sign are exact, integral
 ratio literals are integers, n/0 is no literal

---
 src/kernel/number.cpp | 7 ++++++-
 src/kernel/ratio.cpp  | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index a14a89b..7ba4995 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -380,6 +380,11 @@ namespace meevax::inline kernel
 
   auto make_integer(std::string const& literal, int radix) -> object
   {
+    if (1 < literal.size() and literal[0] == '+' and literal[1] != '+' and literal[1] != '-') // NOTE: std::from_chars does not recognize the plus sign.
+    {
+      return make_integer(literal.substr(1), radix);
+    }
+
     auto value = widen_integer(0);
 
     if (auto result = std::from_chars(literal.data(), literal.data() + literal.size(), value, radix); result.ec == std::errc())
@@ -419,7 +424,7 @@ namespace meevax::inline kernel
     }
     catch (std::invalid_argument const&)
     {
-      return make<ratio>(literal, radix);
+      return number::canonicalize(ratio(literal, radix));
     }
   }
 
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 9842e7d..836cf41 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -67,7 +67,9 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix))
+    auto const unsigned_token = 1 < token.size() and token[0] == '+' and token[1] != '+' and token[1] != '-' ? token.substr(1) : token;
+
+    if (mpq_init(value); mpq_set_str(value, unsigned_token.c_str(), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From 4416fbcdb566b2f8cc829ad254d97f95091b059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 08/69] fix: integral inexact numbers are written with a
 decimal point so that they read back inexact

---
 include/meevax/memory/nan_boxing_pointer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/meevax/memory/nan_boxing_pointer.hpp b/include/meevax/memory/nan_boxing_pointer.hpp
index 640bacf..18dbbec 100644
--- a/include/meevax/memory/nan_boxing_pointer.hpp
+++ b/include/meevax/memory/nan_boxing_pointer.hpp
@@ -21,6 +21,7 @@
 #include <charconv>
 #include <cmath>
 #include <cstddef>
+#include <cstring>
 #include <iomanip>
 #include <limits>
 #include <ostream>
@@ -281,7 +282,7 @@ namespace meevax::inline memory
         {
           char buffer[48] = {};
           std::to_chars(buffer, buffer + sizeof(buffer), value, std::chars_format::general);
-          return os << cyan(buffer);
+          return os << cyan(buffer, std::strpbrk(buffer, ".e") ? "" : ".0"); // Without a decimal point, the numeral would denote an exact integer.
         }
       }
     }
-- 
2.43.0


From df4ca6c897913ade0b2d1bbe2a1c298df7dfce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 09/69] fix: number->string of ratios, complex numbers and
 infinities yields their numerals

---
 src/kernel/number.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 7ba4995..7ddd34b 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -23,6 +23,7 @@
 #include <meevax/kernel/number/power.hpp>
 #include <meevax/kernel/number/trigonometric.hpp>
 #include <meevax/kernel/string.hpp>
+#include <cstring> // std::strpbrk
 #include <memory> // std::unique_ptr
 #include <regex>
 #include <string_view>
@@ -927,9 +928,14 @@ namespace number
         default:
         case 10:
           {
+            if (not std::isfinite(x))
+            {
+              return string(std::isnan(x) ? "+nan.0" : x < 0 ? "-inf.0" : "+inf.0");
+            }
+
             char buffer[48] = {};
             std::to_chars(buffer, buffer + sizeof(buffer), x, std::chars_format::general);
-            return string(buffer);
+            return string(std::strpbrk(buffer, ".e") ? buffer : std::string(buffer) + ".0");
           }
 
         case 16:
@@ -942,7 +948,7 @@ namespace number
       }
       else if constexpr (std::is_same_v<T, widen_integer>)
       {
-        char buffer[33] = {};
+        char buffer[66] = {};
         std::to_chars(buffer, buffer + sizeof(buffer), x, radix);
         return string(buffer);
       }
@@ -950,9 +956,15 @@ namespace number
       {
         return string(std::unique_ptr<char, gmp_free>(mpz_get_str(nullptr, radix, x.value)).get());
       }
+      else if constexpr (std::is_same_v<T, ratio>)
+      {
+        return string(std::unique_ptr<char, gmp_free>(mpq_get_str(nullptr, radix, x.value)).get());
+      }
       else
       {
-        return string("TODO");
+        auto const real = number_to_string(x.real(), radix).template as<string>().utf8();
+        auto const imag = number_to_string(x.imag(), radix).template as<string>().utf8();
+        return string(real + (imag[0] == '+' or imag[0] == '-' ? "" : "+") + imag + "i");
       }
     };
 
-- 
2.43.0


From 5a2245a56e914250cb4480a29943b2648c43ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 10/69] fix: string->number returns #f when the string is no
 numeral

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index d68d341..f84aa6d 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -265,7 +265,7 @@ namespace meevax::inline kernel
       { "bit-count",                     [](let const& xs) { return bit_count(car(xs)); } },
       { "bit-width",                     [](let const& xs) { return bit_width(car(xs)); } },
       { "number->string",                [](let const& xs) { switch (length(xs)) { case 1: return number_to_string(car(xs), 10); case 2: return number_to_string(car(xs), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure number->string takes one or two arugments, but got"), xs); } } },
-      { "string->number",                [](let const& xs) { switch (length(xs)) { case 1: return make_number(car(xs).as<string>().utf8(), 10); case 2: return make_number(car(xs).as<string>().utf8(), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure string->number takes one or two arugments, but got"), xs); } } },
+      { "string->number",                [](let const& xs) { try { switch (length(xs)) { case 1: return make_number(car(xs).as<string>().utf8(), 10); case 2: return make_number(car(xs).as<string>().utf8(), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure string->number takes one or two arugments, but got"), xs); } } catch (std::invalid_argument const&) { return f; } } },
 
       { "pair?",                         [](let const& xs) { return make<bool>(car(xs).is<pair>()); } },
       { "not-pair?",                     [](let const& xs) { return make<bool>(not car(xs).is<pair>()); } },
-- 
2.43.0


From b6de672caa007dd930bf37bea572b95ed8fd1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 11/69] fix: decimal numerals beyond the range of double and
 with exponent marker d are read

---
 src/kernel/number.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 7ddd34b..2a43a84 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -479,15 +479,15 @@ namespace meevax::inline kernel
           case 'D': case 'd':
           case 'E': case 'e':
           default:
-            return make<double>(std::stod(literal));
+            return make<double>(std::strtod(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr)); // NOTE: std::stod throws on overflow and underflow.
 
           case 'F': case 'f':
-            return make<float>(std::stof(literal.substr().replace(result.position(1), 1, "e")));
+            return make<float>(std::strtof(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
           }
         }
         else
         {
-          return make<double>(std::stod(literal));
+          return make<double>(std::strtod(literal.c_str(), nullptr));
         }
       }
       else
-- 
2.43.0


From e3be2259c8397491231839c47b55af4914760fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 12/69] fix: strings with white space or a signed denominator
 are no ratio literals

---
 src/kernel/ratio.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 836cf41..fd9dbc3 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -67,6 +67,13 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
+    auto static const pattern = std::regex(R"([+-]?[0-9A-Za-z]+/[0-9A-Za-z]+)"); // NOTE: GMP also accepts white space anywhere and a signed denominator.
+
+    if (not std::regex_match(token, pattern))
+    {
+      throw std::invalid_argument("not a ratio");
+    }
+
     auto const unsigned_token = 1 < token.size() and token[0] == '+' and token[1] != '+' and token[1] != '-' ? token.substr(1) : token;
 
     if (mpq_init(value); mpq_set_str(value, unsigned_token.c_str(), radix) or mpz_sgn(mpq_denref(value)) == 0)
-- 
2.43.0


From 1932806db83332c98a5a1580311623abb27c80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 13/69] fix: remainder of a large or rational exact number and
 an inexact one truncates

---
 src/kernel/number.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 2a43a84..6869fa4 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -102,7 +102,7 @@ namespace meevax::inline kernel
   auto operator - (large_integer const& a, float b) -> float { return static_cast<float>(a) -  b; }
   auto operator * (large_integer const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (large_integer const& a, float b) -> float { return static_cast<float>(a) /  b; }
-  auto operator % (large_integer const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
+  auto operator % (large_integer const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) == 0; }
   auto operator !=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) != 0; }
   auto operator < (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <  0; }
@@ -114,7 +114,7 @@ namespace meevax::inline kernel
   auto operator - (large_integer const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (large_integer const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (large_integer const& a, double b) -> double { return static_cast<double>(a) /  b; }
-  auto operator % (large_integer const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
+  auto operator % (large_integer const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) == 0; }
   auto operator !=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) != 0; }
   auto operator < (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <  0; }
@@ -169,7 +169,7 @@ namespace meevax::inline kernel
   auto operator - (ratio const& a, float b) -> float { return static_cast<float>(a) -  b; }
   auto operator * (ratio const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (ratio const& a, float b) -> float { return static_cast<float>(a) /  b; }
-  auto operator % (ratio const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
+  auto operator % (ratio const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(ratio const& a, float b) -> bool  { return inexact_equals(static_cast<float>(a), b); }
   auto operator !=(ratio const& a, float b) -> bool  { return not (a == b); }
   auto operator < (ratio const& a, float b) -> bool  { return static_cast<float>(a) <  b; }
@@ -181,7 +181,7 @@ namespace meevax::inline kernel
   auto operator - (ratio const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (ratio const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (ratio const& a, double b) -> double { return static_cast<double>(a) /  b; }
-  auto operator % (ratio const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
+  auto operator % (ratio const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(ratio const& a, double b) -> bool   { return inexact_equals(static_cast<double>(a), b); }
   auto operator !=(ratio const& a, double b) -> bool   { return not (a == b); }
   auto operator < (ratio const& a, double b) -> bool   { return static_cast<double>(a) <  b; }
@@ -200,7 +200,7 @@ namespace meevax::inline kernel
   auto operator - (float a, large_integer const& b) -> float { return a -  static_cast<float>(b); }
   auto operator * (float a, large_integer const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, large_integer const& b) -> float { return a /  static_cast<float>(b); }
-  auto operator % (float a, large_integer const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
+  auto operator % (float a, large_integer const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, large_integer const& b) -> bool  { return 0 == mpz_cmp_d(b.value, a); }
   auto operator !=(float a, large_integer const& b) -> bool  { return 0 != mpz_cmp_d(b.value, a); }
   auto operator < (float a, large_integer const& b) -> bool  { return 0 <  mpz_cmp_d(b.value, a); }
@@ -212,7 +212,7 @@ namespace meevax::inline kernel
   auto operator - (float a, ratio const& b) -> float { return a -  static_cast<float>(b); }
   auto operator * (float a, ratio const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, ratio const& b) -> float { return a /  static_cast<float>(b); }
-  auto operator % (float a, ratio const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
+  auto operator % (float a, ratio const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, ratio const& b) -> bool  { return inexact_equals(a, static_cast<float>(b)); }
   auto operator !=(float a, ratio const& b) -> bool  { return not (a == b); }
   auto operator < (float a, ratio const& b) -> bool  { return a <  static_cast<float>(b); }
@@ -231,7 +231,7 @@ namespace meevax::inline kernel
   auto operator - (double a, large_integer const& b) -> double { return a - static_cast<double>(b); }
   auto operator * (double a, large_integer const& b) -> double { return a * static_cast<double>(b); }
   auto operator / (double a, large_integer const& b) -> double { return a / static_cast<double>(b); }
-  auto operator % (double a, large_integer const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
+  auto operator % (double a, large_integer const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, large_integer const& b) -> bool   { return 0 == mpz_cmp_d(b.value, a); }
   auto operator !=(double a, large_integer const& b) -> bool   { return 0 != mpz_cmp_d(b.value, a); }
   auto operator < (double a, large_integer const& b) -> bool   { return 0 <  mpz_cmp_d(b.value, a); }
@@ -243,7 +243,7 @@ namespace meevax::inline kernel
   auto operator - (double a, ratio const& b) -> double { return a -  static_cast<double>(b); }
   auto operator * (double a, ratio const& b) -> double { return a *  static_cast<double>(b); }
   auto operator / (double a, ratio const& b) -> double { return a /  static_cast<double>(b); }
-  auto operator % (double a, ratio const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
+  auto operator % (double a, ratio const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, ratio const& b) -> bool   { return inexact_equals(a, static_cast<double>(b)); }
   auto operator !=(double a, ratio const& b) -> bool   { return not (a == b); }
   auto operator < (double a, ratio const& b) -> bool   { return a <  static_cast<double>(b); }
-- 
2.43.0


From 14f54351f6608de64b7a8e4527c801f037a88f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 14/69] fix: right shifts by 64 or more bits and the bit width
 of a large_integer -1

---
 src/kernel/number/bitwise.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernel/number/bitwise.cpp b/src/kernel/number/bitwise.cpp
index 0179196..c790552 100644
--- a/src/kernel/number/bitwise.cpp
+++ b/src/kernel/number/bitwise.cpp
@@ -88,7 +88,7 @@ namespace meevax::inline kernel::number
         if (c < 0)
         {
           auto i = large_integer();
-          mpz_fdiv_q_2exp(i.value, x.value, -c);
+          mpz_fdiv_q_2exp(i.value, x.value, -static_cast<widen_integer>(c));
           return i;
         }
         else if (c == 0)
@@ -106,7 +106,7 @@ namespace meevax::inline kernel::number
       {
         if (c < 0)
         {
-          return canonicalize(x >> -c);
+          return canonicalize(x >> std::min(-static_cast<widen_integer>(c), 63_i64));
         }
         else if (c == 0)
         {
@@ -167,7 +167,7 @@ namespace meevax::inline kernel::number
         {
           auto i = large_integer();
           mpz_com(i.value, x.value);
-          return static_cast<widen_integer>(mpz_sizeinbase(i.value, 2));
+          return mpz_sgn(i.value) == 0 ? 0_i64 : static_cast<widen_integer>(mpz_sizeinbase(i.value, 2));
         }
         else if (sign == 0)
         {
-- 
2.43.0


From a0fb27a917879cb5cb9aa13bb3cf4a05b8926796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 15/69] fix: bit-field-rotate of an empty field is the identity

---
 library/srfi-151.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-151.ss b/library/srfi-151.ss
index d35d437..0ace25d 100644
--- a/library/srfi-151.ss
+++ b/library/srfi-151.ss
@@ -159,7 +159,7 @@
   ;
   (begin (define (bit-field-rotate n count start end)
            (define width (- end start))
-           (set! count (modulo count width))
+           (set! count (if (zero? width) 0 (modulo count width)))
            (let ((mask (bitwise-not (arithmetic-shift -1 width))))
              (define zn (bitwise-and mask (arithmetic-shift n (- start))))
              (bitwise-ior (arithmetic-shift (bitwise-ior (bitwise-and mask (arithmetic-shift zn count))
-- 
2.43.0


From 76b459c2f1e62b99a166a3124448908d1201cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 16/69] fix: fxarithmetic-shift-right shifts right, fxsqrt
 returns root and remainder

---
 library/srfi-143.ss | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/srfi-143.ss b/library/srfi-143.ss
index e03ba0b..a422f90 100644
--- a/library/srfi-143.ss
+++ b/library/srfi-143.ss
@@ -109,7 +109,7 @@
 
          (define fxsquare square)
 
-         (define fxsqrt sqrt)
+         (define fxsqrt exact-integer-sqrt)
 
          (define (fx+/carry i j k)
            (let*-values (((s) (+ i j k))
@@ -133,7 +133,9 @@
 
          (define fxarithmetic-shift       arithmetic-shift)
          (define fxarithmetic-shift-left  arithmetic-shift)
-         (define fxarithmetic-shift-right arithmetic-shift)
+
+         (define (fxarithmetic-shift-right i p)
+           (arithmetic-shift i (- p)))
 
          (define fxbit-count bit-count)
 
-- 
2.43.0


From bbd024a0ed41a0c0efdfcc040468127df3f08457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 17/69] fix: exact numbers convert to the nearest double
 instead of being truncated

---
 include/meevax/kernel/large_integer.hpp |  4 +++-
 include/meevax/kernel/ratio.hpp         |  4 +++-
 src/kernel/large_integer.cpp            |  8 +++++++
 src/kernel/ratio.cpp                    | 28 +++++++++++++++++++++++++
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/large_integer.hpp b/include/meevax/kernel/large_integer.hpp
index 0ed1333..6686036 100644
--- a/include/meevax/kernel/large_integer.hpp
+++ b/include/meevax/kernel/large_integer.hpp
@@ -25,6 +25,8 @@
 
 namespace meevax::inline kernel
 {
+  auto nearest(mpz_t const) -> double;
+
   struct large_integer
   {
     mpz_t value;
@@ -71,7 +73,7 @@ namespace meevax::inline kernel
     {
       if constexpr (std::is_floating_point_v<T>)
       {
-        return mpz_get_d(value);
+        return nearest(value);
       }
       else if constexpr (std::is_signed_v<T>)
       {
diff --git a/include/meevax/kernel/ratio.hpp b/include/meevax/kernel/ratio.hpp
index 03daa0e..5af33b6 100644
--- a/include/meevax/kernel/ratio.hpp
+++ b/include/meevax/kernel/ratio.hpp
@@ -21,6 +21,8 @@
 
 namespace meevax::inline kernel
 {
+  auto nearest(mpq_t const) -> double;
+
   struct ratio
   {
     mpq_t value;
@@ -50,7 +52,7 @@ namespace meevax::inline kernel
     template <typename T>
     explicit operator T() const
     {
-      return mpq_get_d(value);
+      return nearest(value);
     }
   };
 
diff --git a/src/kernel/large_integer.cpp b/src/kernel/large_integer.cpp
index b2df3d4..7dcd21b 100644
--- a/src/kernel/large_integer.cpp
+++ b/src/kernel/large_integer.cpp
@@ -20,12 +20,20 @@
 #include <meevax/kernel/collector.hpp>
 #include <meevax/kernel/error.hpp>
 #include <meevax/kernel/large_integer.hpp>
+#include <meevax/kernel/ratio.hpp>
 
 namespace meevax::inline kernel
 {
   let const e0 = make<small_integer>(0);
   let const e1 = make<small_integer>(1);
 
+  auto nearest(mpz_t const x) -> double
+  {
+    auto q = ratio();
+    mpq_set_z(q.value, x);
+    return nearest(q.value);
+  }
+
   large_integer::large_integer() noexcept
   {
     mpz_init(value);
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index fd9dbc3..a34cc3b 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -14,12 +14,40 @@
    limitations under the License.
 */
 
+#include <bit>
+#include <cmath>
+#include <limits>
 #include <regex>
 
 #include <meevax/kernel/number.hpp>
 
 namespace meevax::inline kernel
 {
+  auto nearest(mpq_t const x) -> double // NOTE: mpq_get_d truncates; round to nearest, ties to even.
+  {
+    auto const lower = std::abs(mpq_get_d(x));
+
+    if (std::isinf(lower))
+    {
+      return mpq_get_d(x);
+    }
+
+    auto const upper = std::nextafter(lower, std::numeric_limits<double>::infinity());
+
+    auto magnitude = ratio();
+    mpq_abs(magnitude.value, x);
+
+    auto middle = ratio(std::isinf(upper) ? lower - std::nextafter(lower, 0) : upper - lower);
+    mpq_div_2exp(middle.value, middle.value, 1);
+    mpq_add(middle.value, middle.value, ratio(lower).value);
+
+    auto const order = mpq_cmp(magnitude.value, middle.value);
+
+    auto const is_odd = std::bit_cast<std::uint64_t>(lower) & 1;
+
+    return std::copysign(0 < order or (order == 0 and is_odd) ? upper : lower, mpq_sgn(x));
+  }
+
   ratio::ratio()
   {
     mpq_init(value);
-- 
2.43.0


From 734fb953d1eeea82b98b1d7be360cbe80a233053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 18/69] fix: exact numbers and inexact ones are compared by
 their mathematical values

---
 src/kernel/number.cpp | 102 +++++++++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 40 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 6869fa4..28d4ca5 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -15,6 +15,7 @@
 */
 
 #include <charconv>
+#include <compare>
 #include <meevax/kernel/error.hpp>
 #include <meevax/kernel/ghost.hpp>
 #include <meevax/kernel/list.hpp>
@@ -31,6 +32,27 @@
 
 namespace meevax::inline kernel
 {
+  template <typename T>
+  auto compare(T const& a, double b) -> std::partial_ordering // Compares the mathematical values.
+  {
+    if (std::isnan(b))
+    {
+      return std::partial_ordering::unordered;
+    }
+    else if (std::isinf(b))
+    {
+      return 0 <=> b;
+    }
+    else if constexpr (std::is_same_v<T, large_integer>)
+    {
+      return mpz_cmp_d(a.value, b) <=> 0;
+    }
+    else
+    {
+      return mpq_cmp(a.value, ratio(b).value) <=> 0;
+    }
+  }
+
   auto operator * (widen_integer a, large_integer const& b) -> large_integer { return large_integer(a) * b; }
   auto operator + (widen_integer a, large_integer const& b) -> large_integer { return large_integer(a) + b; }
   auto operator - (widen_integer a, large_integer const& b) -> large_integer { return large_integer(a) - b; }
@@ -103,24 +125,24 @@ namespace meevax::inline kernel
   auto operator * (large_integer const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (large_integer const& a, float b) -> float { return static_cast<float>(a) /  b; }
   auto operator % (large_integer const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
-  auto operator ==(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) == 0; }
-  auto operator !=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) != 0; }
-  auto operator < (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <  0; }
-  auto operator <=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <= 0; }
-  auto operator > (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) >  0; }
-  auto operator >=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) >= 0; }
+  auto operator ==(large_integer const& a, float b) -> bool  { return compare(a, b) == 0; }
+  auto operator !=(large_integer const& a, float b) -> bool  { return compare(a, b) != 0; }
+  auto operator < (large_integer const& a, float b) -> bool  { return compare(a, b) < 0; }
+  auto operator <=(large_integer const& a, float b) -> bool  { return compare(a, b) <= 0; }
+  auto operator > (large_integer const& a, float b) -> bool  { return compare(a, b) > 0; }
+  auto operator >=(large_integer const& a, float b) -> bool  { return compare(a, b) >= 0; }
 
   auto operator + (large_integer const& a, double b) -> double { return static_cast<double>(a) +  b; }
   auto operator - (large_integer const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (large_integer const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (large_integer const& a, double b) -> double { return static_cast<double>(a) /  b; }
   auto operator % (large_integer const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
-  auto operator ==(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) == 0; }
-  auto operator !=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) != 0; }
-  auto operator < (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <  0; }
-  auto operator <=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <= 0; }
-  auto operator > (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) >  0; }
-  auto operator >=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) >= 0; }
+  auto operator ==(large_integer const& a, double b) -> bool   { return compare(a, b) == 0; }
+  auto operator !=(large_integer const& a, double b) -> bool   { return compare(a, b) != 0; }
+  auto operator < (large_integer const& a, double b) -> bool   { return compare(a, b) < 0; }
+  auto operator <=(large_integer const& a, double b) -> bool   { return compare(a, b) <= 0; }
+  auto operator > (large_integer const& a, double b) -> bool   { return compare(a, b) > 0; }
+  auto operator >=(large_integer const& a, double b) -> bool   { return compare(a, b) >= 0; }
 
   auto operator + (large_integer const& a, complex const& b) -> complex { return complex(make<large_integer>(a), e0) +  b; }
   auto operator - (large_integer const& a, complex const& b) -> complex { return complex(make<large_integer>(a), e0) -  b; }
@@ -172,10 +194,10 @@ namespace meevax::inline kernel
   auto operator % (ratio const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(ratio const& a, float b) -> bool  { return inexact_equals(static_cast<float>(a), b); }
   auto operator !=(ratio const& a, float b) -> bool  { return not (a == b); }
-  auto operator < (ratio const& a, float b) -> bool  { return static_cast<float>(a) <  b; }
-  auto operator <=(ratio const& a, float b) -> bool  { return static_cast<float>(a) <= b; }
-  auto operator > (ratio const& a, float b) -> bool  { return static_cast<float>(a) >  b; }
-  auto operator >=(ratio const& a, float b) -> bool  { return static_cast<float>(a) >= b; }
+  auto operator < (ratio const& a, float b) -> bool  { return compare(a, b) < 0; }
+  auto operator <=(ratio const& a, float b) -> bool  { return compare(a, b) <= 0; }
+  auto operator > (ratio const& a, float b) -> bool  { return compare(a, b) > 0; }
+  auto operator >=(ratio const& a, float b) -> bool  { return compare(a, b) >= 0; }
 
   auto operator + (ratio const& a, double b) -> double { return static_cast<double>(a) +  b; }
   auto operator - (ratio const& a, double b) -> double { return static_cast<double>(a) -  b; }
@@ -184,10 +206,10 @@ namespace meevax::inline kernel
   auto operator % (ratio const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(ratio const& a, double b) -> bool   { return inexact_equals(static_cast<double>(a), b); }
   auto operator !=(ratio const& a, double b) -> bool   { return not (a == b); }
-  auto operator < (ratio const& a, double b) -> bool   { return static_cast<double>(a) <  b; }
-  auto operator <=(ratio const& a, double b) -> bool   { return static_cast<double>(a) <= b; }
-  auto operator > (ratio const& a, double b) -> bool   { return static_cast<double>(a) >  b; }
-  auto operator >=(ratio const& a, double b) -> bool   { return static_cast<double>(a) >= b; }
+  auto operator < (ratio const& a, double b) -> bool   { return compare(a, b) < 0; }
+  auto operator <=(ratio const& a, double b) -> bool   { return compare(a, b) <= 0; }
+  auto operator > (ratio const& a, double b) -> bool   { return compare(a, b) > 0; }
+  auto operator >=(ratio const& a, double b) -> bool   { return compare(a, b) >= 0; }
 
   auto operator + (ratio const& a, complex const& b) -> complex { return complex(make<ratio>(a), e0) +  b; }
   auto operator - (ratio const& a, complex const& b) -> complex { return complex(make<ratio>(a), e0) -  b; }
@@ -201,12 +223,12 @@ namespace meevax::inline kernel
   auto operator * (float a, large_integer const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, large_integer const& b) -> float { return a /  static_cast<float>(b); }
   auto operator % (float a, large_integer const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
-  auto operator ==(float a, large_integer const& b) -> bool  { return 0 == mpz_cmp_d(b.value, a); }
-  auto operator !=(float a, large_integer const& b) -> bool  { return 0 != mpz_cmp_d(b.value, a); }
-  auto operator < (float a, large_integer const& b) -> bool  { return 0 <  mpz_cmp_d(b.value, a); }
-  auto operator <=(float a, large_integer const& b) -> bool  { return 0 <= mpz_cmp_d(b.value, a); }
-  auto operator > (float a, large_integer const& b) -> bool  { return 0 >  mpz_cmp_d(b.value, a); }
-  auto operator >=(float a, large_integer const& b) -> bool  { return 0 >= mpz_cmp_d(b.value, a); }
+  auto operator ==(float a, large_integer const& b) -> bool  { return compare(b, a) == 0; }
+  auto operator !=(float a, large_integer const& b) -> bool  { return compare(b, a) != 0; }
+  auto operator < (float a, large_integer const& b) -> bool  { return compare(b, a) > 0; }
+  auto operator <=(float a, large_integer const& b) -> bool  { return compare(b, a) >= 0; }
+  auto operator > (float a, large_integer const& b) -> bool  { return compare(b, a) < 0; }
+  auto operator >=(float a, large_integer const& b) -> bool  { return compare(b, a) <= 0; }
 
   auto operator + (float a, ratio const& b) -> float { return a +  static_cast<float>(b); }
   auto operator - (float a, ratio const& b) -> float { return a -  static_cast<float>(b); }
@@ -215,10 +237,10 @@ namespace meevax::inline kernel
   auto operator % (float a, ratio const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, ratio const& b) -> bool  { return inexact_equals(a, static_cast<float>(b)); }
   auto operator !=(float a, ratio const& b) -> bool  { return not (a == b); }
-  auto operator < (float a, ratio const& b) -> bool  { return a <  static_cast<float>(b); }
-  auto operator <=(float a, ratio const& b) -> bool  { return a <= static_cast<float>(b); }
-  auto operator > (float a, ratio const& b) -> bool  { return a >  static_cast<float>(b); }
-  auto operator >=(float a, ratio const& b) -> bool  { return a >= static_cast<float>(b); }
+  auto operator < (float a, ratio const& b) -> bool  { return compare(b, a) > 0; }
+  auto operator <=(float a, ratio const& b) -> bool  { return compare(b, a) >= 0; }
+  auto operator > (float a, ratio const& b) -> bool  { return compare(b, a) < 0; }
+  auto operator >=(float a, ratio const& b) -> bool  { return compare(b, a) <= 0; }
 
   auto operator + (float a, complex const& b) -> complex { return complex(make<float>(a), e0) +  b; }
   auto operator - (float a, complex const& b) -> complex { return complex(make<float>(a), e0) -  b; }
@@ -232,12 +254,12 @@ namespace meevax::inline kernel
   auto operator * (double a, large_integer const& b) -> double { return a * static_cast<double>(b); }
   auto operator / (double a, large_integer const& b) -> double { return a / static_cast<double>(b); }
   auto operator % (double a, large_integer const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
-  auto operator ==(double a, large_integer const& b) -> bool   { return 0 == mpz_cmp_d(b.value, a); }
-  auto operator !=(double a, large_integer const& b) -> bool   { return 0 != mpz_cmp_d(b.value, a); }
-  auto operator < (double a, large_integer const& b) -> bool   { return 0 <  mpz_cmp_d(b.value, a); }
-  auto operator <=(double a, large_integer const& b) -> bool   { return 0 <= mpz_cmp_d(b.value, a); }
-  auto operator > (double a, large_integer const& b) -> bool   { return 0 >  mpz_cmp_d(b.value, a); }
-  auto operator >=(double a, large_integer const& b) -> bool   { return 0 >= mpz_cmp_d(b.value, a); }
+  auto operator ==(double a, large_integer const& b) -> bool   { return compare(b, a) == 0; }
+  auto operator !=(double a, large_integer const& b) -> bool   { return compare(b, a) != 0; }
+  auto operator < (double a, large_integer const& b) -> bool   { return compare(b, a) > 0; }
+  auto operator <=(double a, large_integer const& b) -> bool   { return compare(b, a) >= 0; }
+  auto operator > (double a, large_integer const& b) -> bool   { return compare(b, a) < 0; }
+  auto operator >=(double a, large_integer const& b) -> bool   { return compare(b, a) <= 0; }
 
   auto operator + (double a, ratio const& b) -> double { return a +  static_cast<double>(b); }
   auto operator - (double a, ratio const& b) -> double { return a -  static_cast<double>(b); }
@@ -246,10 +268,10 @@ namespace meevax::inline kernel
   auto operator % (double a, ratio const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, ratio const& b) -> bool   { return inexact_equals(a, static_cast<double>(b)); }
   auto operator !=(double a, ratio const& b) -> bool   { return not (a == b); }
-  auto operator < (double a, ratio const& b) -> bool   { return a <  static_cast<double>(b); }
-  auto operator <=(double a, ratio const& b) -> bool   { return a <= static_cast<double>(b); }
-  auto operator > (double a, ratio const& b) -> bool   { return a >  static_cast<double>(b); }
-  auto operator >=(double a, ratio const& b) -> bool   { return a >= static_cast<double>(b); }
+  auto operator < (double a, ratio const& b) -> bool   { return compare(b, a) > 0; }
+  auto operator <=(double a, ratio const& b) -> bool   { return compare(b, a) >= 0; }
+  auto operator > (double a, ratio const& b) -> bool   { return compare(b, a) < 0; }
+  auto operator >=(double a, ratio const& b) -> bool   { return compare(b, a) <= 0; }
 
   auto operator + (double a, complex const& b) -> complex { return complex(make<double>(a), e0) +  b; }
   auto operator - (double a, complex const& b) -> complex { return complex(make<double>(a), e0) -  b; }
-- 
2.43.0


From cb1a662632fb4077f37e6bd344946522caeb1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 19/69] fix: exact of an infinity or NaN is an error instead of
 a crash, NaN is not finite

---
 src/kernel/number.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 28d4ca5..bf65a75 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -591,7 +591,12 @@ namespace number
       }
       else if constexpr (std::is_floating_point_v<T>)
       {
-        return ratio(std::forward<decltype(x)>(x));
+        if (not std::isfinite(x))
+        {
+          throw error(make<string>("no exact representation"), list(make<T>(x)));
+        }
+
+        return ratio(x);
       }
       else
       {
@@ -727,7 +732,7 @@ namespace number
 
   auto is_finite(object const& x) -> bool
   {
-    return not is_infinite(x);
+    return not is_infinite(x) and not is_nan(x);
   }
 
   auto is_infinite(object const& x) -> bool
-- 
2.43.0


From aaced4cb6788f100f80265cab15bdbd264764f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 20/69] fix: keep the written form of integral inexact numbers
 (only number->string adds the decimal point)

---
 include/meevax/memory/nan_boxing_pointer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/meevax/memory/nan_boxing_pointer.hpp b/include/meevax/memory/nan_boxing_pointer.hpp
index 18dbbec..640bacf 100644
--- a/include/meevax/memory/nan_boxing_pointer.hpp
+++ b/include/meevax/memory/nan_boxing_pointer.hpp
@@ -21,7 +21,6 @@
 #include <charconv>
 #include <cmath>
 #include <cstddef>
-#include <cstring>
 #include <iomanip>
 #include <limits>
 #include <ostream>
@@ -282,7 +281,7 @@ namespace meevax::inline memory
         {
           char buffer[48] = {};
           std::to_chars(buffer, buffer + sizeof(buffer), value, std::chars_format::general);
-          return os << cyan(buffer, std::strpbrk(buffer, ".e") ? "" : ".0"); // Without a decimal point, the numeral would denote an exact integer.
+          return os << cyan(buffer);
         }
       }
     }
-- 
2.43.0


From a61362354bab8798ec3fdaeed2c1e12705d574dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 21/69] fix: transfers between extents of different depth
 neither leave nor enter their common extents

---
 library/meevax.ss | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 81460e6..6edb187 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -45,7 +45,8 @@
           (only (meevax comparator) eq?)
           (only (meevax core) begin call-with-current-continuation! current define if install lambda)
           (only (meevax pair) caar car cdar cdr cons pair?)
-          (only (meevax list) null?))
+          (only (meevax list) length)
+          (only (meevax number) <))
 
   (export call-with-current-continuation dynamic-wind exit)
 
@@ -67,20 +68,16 @@
 
          (define (call-with-current-continuation procedure)
            (define (windup! from to)
-             (install-dynamic-extents! from)
              (if (eq? from to)
                  #t
-                 (if (null? from)
+                 (if (< (length from)
+                        (length to))
                      (begin (windup! from (cdr to))
-                            ((caar to)))
-                     (if (null? to)
-                         (begin ((cdar from))
-                                (windup! (cdr from) to))
-                         (begin ((cdar from))
-                                (windup! (cdr from)
-                                         (cdr to))
-                                ((caar to))))))
-             (install-dynamic-extents! to))
+                            ((caar to))
+                            (install-dynamic-extents! to))
+                     (begin (install-dynamic-extents! (cdr from))
+                            ((cdar from))
+                            (windup! (cdr from) to)))))
            ((lambda (dynamic-extents)
               (call-with-current-continuation!
                 (lambda (continue)
-- 
2.43.0


From c4cca8be51d52daf589f6c96ca07a17636222a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 22/69] fix: exit leaves each extent before it runs its after
 thunk, and runs it once

---
 library/meevax.ss | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 6edb187..319bef8 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -87,14 +87,13 @@
             (current-dynamic-extents)))
 
          (define (exit . xs)
-           (letrec ((for-each (lambda (f x)
-                                (if (pair? x)
-                                    (begin (f (car x))
-                                           (for-each f (cdr x)))))))
-             (for-each (lambda (before/after)
-                         ((cdr before/after)))
-                       (current-dynamic-extents))
-             (emergency-exit . xs)))))
+           (if (pair? (current-dynamic-extents))
+               ((lambda (before/after)
+                  (install-dynamic-extents! (cdr (current-dynamic-extents)))
+                  ((cdr before/after))
+                  (exit . xs))
+                (car (current-dynamic-extents)))
+               (emergency-exit . xs)))))
 
 (define-library (meevax apply)
   (import (only (meevax core) define if lambda)
-- 
2.43.0


From dcccdc8bb9d9472fa27817fce724d8a221a5b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 23/69] fix: continuations accept any number of values and
 deliver all of them

---
 library/meevax.ss | 21 +++++++++++++++------
 library/r5rs.ss   | 10 +---------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 319bef8..163bcb7 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -43,14 +43,23 @@
 (define-library (meevax continuation)
   (import (only (meevax context) emergency-exit)
           (only (meevax comparator) eq?)
-          (only (meevax core) begin call-with-current-continuation! current define if install lambda)
+          (only (meevax core) begin call-with-current-continuation! current define if install lambda quote)
           (only (meevax pair) caar car cdar cdr cons pair?)
-          (only (meevax list) length)
+          (only (meevax list) length list null?)
           (only (meevax number) <))
 
-  (export call-with-current-continuation dynamic-wind exit)
+  (export call-with-current-continuation dynamic-wind exit <values> values)
 
-  (begin (define (current-dynamic-extents)
+  (begin (define <values> (list 'values)) ; Chibi-Scheme
+
+         (define (values . xs) ; Chibi-Scheme
+           (if (if (pair? xs)
+                   (null? (cdr xs))
+                   #f)
+               (car xs)
+               (cons <values> xs)))
+
+         (define (current-dynamic-extents)
            (current 0))
 
          (define (install-dynamic-extents! extents)
@@ -81,9 +90,9 @@
            ((lambda (dynamic-extents)
               (call-with-current-continuation!
                 (lambda (continue)
-                  (procedure (lambda (x)
+                  (procedure (lambda xs
                                (windup! (current-dynamic-extents) dynamic-extents)
-                               (continue x))))))
+                               (continue (values . xs)))))))
             (current-dynamic-extents)))
 
          (define (exit . xs)
diff --git a/library/r5rs.ss b/library/r5rs.ss
index 1fd994c..5f5d594 100644
--- a/library/r5rs.ss
+++ b/library/r5rs.ss
@@ -1,5 +1,5 @@
 (define-library (scheme r5rs)
-  (import (only (meevax continuation) dynamic-wind)
+  (import (only (meevax continuation) dynamic-wind <values> values)
           (only (meevax core) define-syntax let-syntax letrec-syntax)
           (only (meevax environment) environment eval)
           (scheme r4rs)
@@ -81,14 +81,6 @@
          ;   (let-values ((xs (producer)))
          ;     (apply consumer xs)))
 
-         (define <values> (list 'values)) ; Chibi-Scheme
-
-         (define (values . xs) ; Chibi-Scheme
-           (if (and (pair? xs)
-                    (null? (cdr xs)))
-               (car xs)
-               (cons <values> xs)))
-
          (define (call-with-values produce consume) ; Chibi-Scheme
            (define (values? x)
              (and (pair? x)
-- 
2.43.0


From 7abd45202bd3866a0268c3e6e2133964f43535c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 24/69] fix: promise-update! shares the resolved box instead of
 overwriting its tag

---
 library/srfi-45.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-45.ss b/library/srfi-45.ss
index 5a550fe..3666edb 100644
--- a/library/srfi-45.ss
+++ b/library/srfi-45.ss
@@ -25,7 +25,7 @@
          (define (promise-update! new old)
            (set-car! (cdr old) (promise-done? new))
            (set-cdr! (cdr old) (promise-value new))
-           (set-car! new (cdr old)))
+           (set-cdr! new (cdr old)))
 
          (define (force promise)
            (if (promise-done? promise)
-- 
2.43.0


From e09ed55973d67519c2db404e509129b56f9ad4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 25/69] fix: raise after a returning handler raises in the
 outer handlers

---
 library/srfi-34.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-34.ss b/library/srfi-34.ss
index 19cf15a..8f71a7a 100644
--- a/library/srfi-34.ss
+++ b/library/srfi-34.ss
@@ -52,7 +52,7 @@
                      (if (procedure? inner)
                          (inner x)
                          (throw x))
-                     (throw x))))
+                     (raise x))))
                (throw x)))
 
          (define (raise-continuable x)
-- 
2.43.0


From 7ff4f26ee55f7f1054875400b1d8ad09dd3709b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 26/69] fix: infinities are no integers

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index bf65a75..ece9e69 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -682,7 +682,7 @@ namespace number
       }
       else if constexpr (std::is_floating_point_v<T>)
       {
-        return x == std::trunc(x);
+        return std::isfinite(x) and x == std::trunc(x);
       }
       else if constexpr (std::is_same_v<T, ratio>)
       {
-- 
2.43.0


From 9ce09e178a48e59adff61ae8b2826d0c441e0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 27/69] fix: letrec binds its variables under their renamed
 names when an outer scope has the same names

---
 src/kernel/expander.cpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index f043d3c..1a1a690 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -189,22 +189,34 @@ namespace meevax::inline kernel
 
   EXPANDER(expander::letrec)
   {
-    let const extended_bound_variables = cons(alpha.convert_formals(map(car, cadr(form)), bound_variables),
-                                              bound_variables);
-
-    return cons(car(form),
-                map([&](let const& binding)
-                    {
-                      return list(car(binding),
-                                  expander.expand(cadr(binding),
-                                                  extended_bound_variables,
-                                                  alpha));
-                    },
-                    cadr(form)),
+    auto scoped_alpha = alpha;
+
+    let const formals = scoped_alpha.convert_formals(map(car, cadr(form)), bound_variables);
+
+    let const extended_bound_variables = cons(formals, bound_variables);
+
+    auto rebind = [&](auto rebind, let const& formals, let const& bindings) -> object
+    {
+      if (bindings.is<pair>())
+      {
+        return cons(list(car(formals),
+                         expander.expand(cadar(bindings),
+                                         extended_bound_variables,
+                                         scoped_alpha)),
+                    rebind(rebind, cdr(formals), cdr(bindings)));
+      }
+      else
+      {
+        return unit;
+      }
+    };
+
+    return cons(alpha.convert(car(form)),
+                rebind(rebind, formals, cadr(form)),
                 body(expander,
                      cddr(form),
                      extended_bound_variables,
-                     alpha));
+                     scoped_alpha));
   }
 
   EXPANDER(expander::sequence)
-- 
2.43.0


From 9b3155f831a81950689831e208a30fd531bb967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 28/69] fix: the square root of a large integer that is no
 perfect square is inexact

---
 src/kernel/number/power.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number/power.cpp b/src/kernel/number/power.cpp
index 749e3bf..40373da 100644
--- a/src/kernel/number/power.cpp
+++ b/src/kernel/number/power.cpp
@@ -117,7 +117,7 @@ namespace meevax::inline kernel::number
           {
             auto const [s, r] = x.sqrt();
 
-            return r == 0_i64 ? make<large_integer>(s) : make<large_integer>(std::sqrt(static_cast<double>(x)));
+            return r == 0_i64 ? make<large_integer>(s) : make<double>(std::sqrt(static_cast<double>(x)));
           }
           else
           {
-- 
2.43.0


From 83b701f34f94fea6e0dbc817adec9f2e749aea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 29/69] fix: errors of primitives are raised in the context of
 the call instead of nesting the interpreter

---
 src/kernel/dynamic_environment.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/kernel/dynamic_environment.cpp b/src/kernel/dynamic_environment.cpp
index d2c04e3..51a3c00 100644
--- a/src/kernel/dynamic_environment.cpp
+++ b/src/kernel/dynamic_environment.cpp
@@ -49,7 +49,18 @@ namespace meevax::inline kernel
     assert(last(c).template is<instruction>());
     assert(last(c).template as<instruction>() == instruction::secd_stop);
 
-    try
+    /*
+       Exceptions are thrown by the callee of (%call) or (%tail-call) before any
+       register has changed. Calling the exception handler instead of that
+       callee raises the exception in the context of the call without nesting
+       the execution of the handler (and of everything it escapes to).
+    */
+    auto raise = [&](let const& thrown)
+    {
+      s = cons(exception_handler, list(thrown), cddr(s));
+    };
+
+    for (;;) try
     {
     fetch:
       assert(c);
@@ -474,7 +485,7 @@ namespace meevax::inline kernel
     {
       if (exception_handler)
       {
-        return apply(exception_handler, list(thrown.make()));
+        raise(thrown.make());
       }
       else // In most cases, this clause will never be called.
       {
@@ -486,7 +497,7 @@ namespace meevax::inline kernel
     {
       if (auto thrown = error(make<string>(exception.what()), unit); exception_handler)
       {
-        return apply(exception_handler, list(thrown.make()));
+        raise(thrown.make());
       }
       else // In most cases, this clause will never be called.
       {
-- 
2.43.0


From 4d2924505a5cb0d82c98612394b86f329fe2eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 30/69] Verification hooks: scheduled collections, cells
 visible to AddressSanitizer

---
 include/meevax/kernel/collector.hpp | 4 ++++
 include/meevax/memory/allocator.hpp | 8 ++++++++
 src/kernel/collector.cpp            | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/include/meevax/kernel/collector.hpp b/include/meevax/kernel/collector.hpp
index 66286a4..083bf9d 100644
--- a/include/meevax/kernel/collector.hpp
+++ b/include/meevax/kernel/collector.hpp
@@ -40,6 +40,10 @@ namespace meevax::inline kernel
 
   auto request(std::size_t) noexcept -> void;
 
+  #ifdef MEEVAX_VERIFICATION
+  inline auto (*schedule)() noexcept -> bool = nullptr; // Decides at each allocation point whether to collect there.
+  #endif
+
   auto reserve(std::size_t) noexcept -> void;
 
   struct status
diff --git a/include/meevax/memory/allocator.hpp b/include/meevax/memory/allocator.hpp
index 27c5f50..155a122 100644
--- a/include/meevax/memory/allocator.hpp
+++ b/include/meevax/memory/allocator.hpp
@@ -113,6 +113,10 @@ namespace meevax::inline memory
     {
       assert(n == 1);
 
+      #if defined(MEEVAX_VERIFICATION) and defined(__SANITIZE_ADDRESS__) // Show each cell to the sanitizer.
+      return static_cast<value_type *>(::operator new(sizeof(chunk)));
+      #endif
+
       if (free_list)
       {
         return reinterpret_cast<value_type *>(std::exchange(free_list, free_list->tail));
@@ -132,6 +136,10 @@ namespace meevax::inline memory
     {
       assert(n == 1);
 
+      #if defined(MEEVAX_VERIFICATION) and defined(__SANITIZE_ADDRESS__)
+      return ::operator delete(p);
+      #endif
+
       reinterpret_cast<chunk *>(p)->tail = std::exchange(free_list, reinterpret_cast<chunk *>(p));
     }
   };
diff --git a/src/kernel/collector.cpp b/src/kernel/collector.cpp
index 92f8793..3858458 100644
--- a/src/kernel/collector.cpp
+++ b/src/kernel/collector.cpp
@@ -237,6 +237,13 @@ namespace meevax::inline kernel
 
   auto request(std::size_t n) noexcept -> void
   {
+    #ifdef MEEVAX_VERIFICATION
+    if (schedule and schedule())
+    {
+      collect();
+    }
+    #endif
+
     if (size += n; capacity < size)
     {
       collect();
-- 
2.43.0


From d29e07fe3fe965fd3ccda544debfbd6794ed390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 31/69] fix: lists of bindings, included forms and conditional
 declarations stay alive while they are processed

---
 src/kernel/environment.cpp | 6 +++---
 src/kernel/library.cpp     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kernel/environment.cpp b/src/kernel/environment.cpp
index 30b5608..ff74765 100644
--- a/src/kernel/environment.cpp
+++ b/src/kernel/environment.cpp
@@ -47,7 +47,7 @@ namespace meevax::inline kernel
       }
       else if (name == "include")
       {
-        for (let const& command_or_definition : include(cdr(expression)) | as_proper_list)
+        for (let const commands_or_definitions = include(cdr(expression)); let const& command_or_definition : commands_or_definitions | as_proper_list)
         {
           evaluate(command_or_definition);
         }
@@ -56,7 +56,7 @@ namespace meevax::inline kernel
       }
       else if (name == "include-ci")
       {
-        for (let const& command_or_definition : include<case_insensitive>(cdr(expression)) | as_proper_list)
+        for (let const commands_or_definitions = include<case_insensitive>(cdr(expression)); let const& command_or_definition : commands_or_definitions | as_proper_list)
         {
           evaluate(command_or_definition);
         }
@@ -169,7 +169,7 @@ namespace meevax::inline kernel
 
   auto environment::import(object const& form) -> void
   {
-    for (let const& x : import_set(form) | as_proper_list)
+    for (let const xs = import_set(form); let const& x : xs | as_proper_list)
     {
       assert(x.is<absolute>());
 
diff --git a/src/kernel/library.cpp b/src/kernel/library.cpp
index 6667f9e..62dd53d 100644
--- a/src/kernel/library.cpp
+++ b/src/kernel/library.cpp
@@ -48,7 +48,7 @@ namespace meevax::inline kernel
       }
       else if (name == "include-library-declarations")
       {
-        for (let const& library_declaration : include(cdr(declaration)) | as_proper_list)
+        for (let const library_declarations = include(cdr(declaration)); let const& library_declaration : library_declarations | as_proper_list)
         {
           evaluate(library_declaration);
         }
@@ -57,7 +57,7 @@ namespace meevax::inline kernel
       }
       else if (name == "cond-expand")
       {
-        for (let const& library_declaration : conditional_expand(cdr(declaration)) | as_proper_list)
+        for (let const library_declarations = conditional_expand(cdr(declaration)); let const& library_declaration : library_declarations | as_proper_list)
         {
           evaluate(library_declaration);
         }
-- 
2.43.0


From 7efad91b917ccec461fa16eff5be555559e85005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 32/69] fix: quote strips syntactic closures from everywhere in
 a datum, not just from its root

---
 .../meevax/kernel/syntactic_environment.hpp   |   2 +
 src/kernel/generator.cpp                      |   3 +-
 src/kernel/syntactic_environment.cpp          | 101 +++++++++++++++++-
 3 files changed, 103 insertions(+), 3 deletions(-)

diff --git a/include/meevax/kernel/syntactic_environment.hpp b/include/meevax/kernel/syntactic_environment.hpp
index 8a8621c..95e36a2 100644
--- a/include/meevax/kernel/syntactic_environment.hpp
+++ b/include/meevax/kernel/syntactic_environment.hpp
@@ -44,6 +44,8 @@ namespace meevax::inline kernel
 
     auto identify(object const& variable, object const& bound_variables) -> object;
 
+    auto static strip(object const& form) -> object;
+
     auto sweep(let const& form,
                let const& sequence,
                let const& bound_variables,
diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 54869fb..7ed7568 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -31,8 +31,7 @@ namespace meevax::inline kernel
 
   GENERATOR(generator::quote)
   {
-    return cons(make<instruction>(instruction::secd_load_constant), car(form).is<syntactic_closure>() ? car(form).as<syntactic_closure>().form
-                                                                                                      : car(form),
+    return cons(make<instruction>(instruction::secd_load_constant), generator.strip(car(form)),
                 continuation);
   }
 
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 5ba72f1..545d597 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -25,6 +25,10 @@
 #include <meevax/kernel/syntactic_environment.hpp>
 #include <meevax/kernel/syntax.hpp>
 #include <meevax/kernel/transformer.hpp>
+#include <meevax/kernel/vector.hpp>
+#include <unordered_map>
+#include <unordered_set>
+#include <vector>
 
 namespace meevax::inline kernel
 {
@@ -113,7 +117,7 @@ namespace meevax::inline kernel
       }
       else // is <self-evaluating>
       {
-        return cons(make<instruction>(instruction::secd_load_constant), form, continuation);
+        return cons(make<instruction>(instruction::secd_load_constant), strip(form), continuation);
       }
     }
     else if (car(form).is_also<identifier>())
@@ -200,6 +204,101 @@ namespace meevax::inline kernel
     }
   }
 
+  auto syntactic_environment::strip(object const& form) -> object
+  {
+    auto traverse = [](object const& form, auto&& visit) // Visit each datum in the form (which may be circular) once.
+    {
+      auto visited = std::unordered_set<pair const*>();
+
+      for (auto stack = std::vector<object> { form }; not stack.empty(); )
+      {
+        let const x = stack.back();
+
+        stack.pop_back();
+
+        if (x.is<pair>() or x.is<vector>() or x.is<syntactic_closure>())
+        {
+          if (visited.insert(x.get()).second)
+          {
+            visit(x);
+
+            if (x.is<pair>())
+            {
+              stack.push_back(car(x));
+              stack.push_back(cdr(x));
+            }
+            else if (x.is<vector>())
+            {
+              stack.insert(stack.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end());
+            }
+            else
+            {
+              stack.push_back(x.as<syntactic_closure>().form);
+            }
+          }
+        }
+      }
+    };
+
+    auto stripped = true;
+
+    traverse(form, [&](let const& x)
+    {
+      stripped = stripped and not x.is<syntactic_closure>();
+    });
+
+    if (stripped)
+    {
+      return form;
+    }
+
+    auto copies = std::unordered_map<pair const*, object>();
+
+    traverse(form, [&](let const& x)
+    {
+      if (x.is<pair>())
+      {
+        copies.emplace(x.get(), cons(unit, unit));
+      }
+      else if (x.is<vector>())
+      {
+        copies.emplace(x.get(), make<vector>());
+        copies.at(x.get()).as<vector>().objects = x.as<vector>().objects;
+      }
+    });
+
+    auto copy = [&](let const& form)
+    {
+      let x = form;
+
+      while (x.is<syntactic_closure>())
+      {
+        x = x.as<syntactic_closure>().form;
+      }
+
+      return x.is<pair>() or x.is<vector>() ? copies.at(x.get()) : x;
+    };
+
+    traverse(form, [&](let const& x)
+    {
+      if (x.is<pair>())
+      {
+        let & y = copies.at(x.get());
+        car(y) = copy(car(x));
+        cdr(y) = copy(cdr(x));
+      }
+      else if (x.is<vector>())
+      {
+        for (auto & y : copies.at(x.get()).as<vector>().objects)
+        {
+          y = copy(y);
+        }
+      }
+    });
+
+    return copy(form);
+  }
+
   auto syntactic_environment::sweep(let const& form,
                                     let const& sequence,
                                     let const& bound_variables,
-- 
2.43.0


From 68ba21adc1fd94258a6431ca842825dc100cca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 33/69] fix: literals and underscores followed by an ellipsis
 match as such

---
 library/srfi-149.ss | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index aae4b25..988e0e6 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -144,7 +144,9 @@
                                                                    (,_cons3 (,_car ,_ls)
                                                                             ,_res
                                                                             ,_ls))))))))))
-                          ((identifier? (car p))
+                          ((and (identifier? (car p))
+                                (not (compare (car p) _underscore))
+                                (not (any (lambda (lit) (compare (car p) lit)) lits)))
                            (list _and (list _list? v)
                                  (list _let (list (list (car p) v))
                                        (k (cons (cons (car p) (+ 1 dim)) vars)))))
@@ -209,7 +211,8 @@
              (define (all-vars x dim)
                (let lp ((x x) (dim dim) (vars '()))
                  (cond ((identifier? x)
-                        (if (any (lambda (lit) (compare x lit)) lits)
+                        (if (or (compare x _underscore)
+                                (any (lambda (lit) (compare x lit)) lits))
                             vars
                             (cons (cons x dim) vars)))
                        ((ellipsis? x) (lp (car x) (+ dim 1) (lp (cddr x) dim vars)))
-- 
2.43.0


From 6abad439957c9993299042c0a8744007322ba833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 34/69] fix: escaped ellipses substitute pattern variables, an
 ellipsis among the literals is a literal

---
 library/srfi-149.ss | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index 988e0e6..fcd61bd 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -197,9 +197,12 @@
                               (lp (vector->list p) (list _vector->list v) dim vars k)))
                        ((null? p) (list _and (list _null? v) (k vars)))
                        (else (list _and (list _equal? v p) (k vars))))))))
-             (define (ellipsis-escape? x) (and (pair? x) (compare ellipsis (car x))))
+             (define (ellipsis-escape? x)
+               (and (pair? x) (compare ellipsis (car x))
+                    (not (any (lambda (lit) (compare ellipsis lit)) lits))))
              (define (ellipsis? x)
-               (and (pair? x) (pair? (cdr x)) (compare ellipsis (cadr x))))
+               (and (pair? x) (pair? (cdr x)) (compare ellipsis (cadr x))
+                    (not (any (lambda (lit) (compare ellipsis lit)) lits))))
              (define (ellipsis-depth x)
                (if (ellipsis? x)
                    (+ 1 (ellipsis-depth (cdr x)))
@@ -232,7 +235,7 @@
                    ((vector? x) (lp (vector->list x) free))
                    (else free))))
              (define (expand-template tmpl vars)
-               (let lp ((t tmpl) (dim 0))
+               (let lp ((t tmpl) (dim 0) (ellipsis? ellipsis?) (ellipsis-escape? ellipsis-escape?))
                  (cond
                    ((identifier? t)
                     (cond
@@ -246,10 +249,12 @@
                    ((pair? t)
                     (cond
                       ((ellipsis-escape? t)
-                       (list _quote
-                             (if (pair? (cdr t))
-                                 (if (pair? (cddr t)) (cddr t) (cadr t))
-                                 (cdr t))))
+                       (lp (if (pair? (cdr t))
+                               (if (pair? (cddr t)) (cddr t) (cadr t))
+                               (cdr t))
+                           dim
+                           (lambda (x) #f)
+                           (lambda (x) #f)))
                       ((ellipsis? t)
                        (let* ((depth (ellipsis-depth t))
                               (ell-dim (+ dim depth))
@@ -259,9 +264,9 @@
                             (error "too many ...'s"))
                            ((and (null? (cdr (cdr t))) (identifier? (car t)))
                             ;; shortcut for (var ...)
-                            (lp (car t) ell-dim))
+                            (lp (car t) ell-dim ellipsis? ellipsis-escape?))
                            (else
-                             (let* ((once (lp (car t) ell-dim))
+                             (let* ((once (lp (car t) ell-dim ellipsis? ellipsis-escape?))
                                     (nest (if (and (null? (cdr ell-vars))
                                                    (identifier? once)
                                                    (eq? once (car vars)))
@@ -275,9 +280,12 @@
                                             ((= d 1) many))))
                                (if (null? (ellipsis-tail t))
                                    many ;; shortcut
-                                   (list _append many (lp (ellipsis-tail t) dim))))))))
-                      (else (list _cons3 (lp (car t) dim) (lp (cdr t) dim) (list _quote t)))))
-                   ((vector? t) (list _list->vector (lp (vector->list t) dim)))
+                                   (list _append many (lp (ellipsis-tail t) dim ellipsis? ellipsis-escape?))))))))
+                      (else (list _cons3
+                                  (lp (car t) dim ellipsis? ellipsis-escape?)
+                                  (lp (cdr t) dim ellipsis? ellipsis-escape?)
+                                  (list _quote t)))))
+                   ((vector? t) (list _list->vector (lp (vector->list t) dim ellipsis? ellipsis-escape?)))
                    ((null? t) (list _quote '()))
                    (else t))))
              (list
-- 
2.43.0


From fe5a6e8ec8b8549ba21966dbb1fb028ceb66f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 35/69] fix: internal definitions expanded from macros extend
 the frame of the body instead of restarting it forever

---
 src/kernel/expander.cpp              |  9 ---------
 src/kernel/syntactic_environment.cpp | 26 ++++++++++++++++----------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index 1a1a690..7015fb4 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -113,15 +113,6 @@ namespace meevax::inline kernel
         }
       }
 
-      for (let & formal : formals | as_proper_list)
-      {
-        if (formal.is<macro>()) // is internal-sytnax-definition
-        {
-          cdr(formal) = make<transformer>(environment().execute(current_environment.template as<syntactic_environment>().compile(cdr(formal) /* <transformer spec> */)),
-                                          current_environment);
-        }
-      }
-
       return expander.expand(list(cons(cons(default_rename("lambda"),
                                             formals,
                                             sequence),
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 545d597..9e5d81e 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -307,22 +307,26 @@ namespace meevax::inline kernel
                                     let const& formals,
                                     let const& reversed_binding_specs) const -> std::tuple<object, object, object>
   {
-    auto reset = [&](let const& formals)
+    auto extend = [&](let const& formals)
     {
+      current_environment.as<syntactic_environment>().first = cons(formals, bound_variables);
+
       return sweep(form,
-                   form,
+                   sequence,
                    bound_variables,
-                   make<syntactic_environment>(cons(formals, bound_variables), second),
+                   current_environment,
                    alpha,
-                   formals);
+                   formals,
+                   reversed_binding_specs);
     };
 
     if (sequence.is<pair>())
     {
-      if (car(sequence).is<syntactic_closure>() and identify(car(sequence), car(current_environment)) == f)
+      if (car(sequence).is<syntactic_closure>() and not car(sequence).as<syntactic_closure>().form.is_also<identifier>())
       {
         return sweep(form,
-                     cons(car(sequence).as<syntactic_closure>().expand(car(current_environment), alpha),
+                     cons(eq(car(sequence).as<syntactic_closure>().syntactic_environment, current_environment) ? car(sequence).as<syntactic_closure>().form
+                                                                                                                : car(sequence).as<syntactic_closure>().expand(car(current_environment), alpha),
                           cdr(sequence)),
                      bound_variables,
                      current_environment,
@@ -332,7 +336,7 @@ namespace meevax::inline kernel
       }
       else if (car(sequence).is<pair>() and caar(sequence).is_also<identifier>())
       {
-        if (let const& identity = identify(caar(sequence), bound_variables); identity.is_also<absolute>())
+        if (let const& identity = identify(caar(sequence), car(current_environment)); identity.is_also<absolute>())
         {
           if (let const& value = cdr(identity); value.is<transformer>())
           {
@@ -377,7 +381,7 @@ namespace meevax::inline kernel
                 }
                 else
                 {
-                  return reset(append(formals, list(variable)));
+                  return extend(append(formals, list(variable)));
                 }
               }
               else // <form> = ((define <variable> <expression>) <definition or expression>*)
@@ -395,7 +399,7 @@ namespace meevax::inline kernel
                 }
                 else
                 {
-                  return reset(append(formals, list(variable)));
+                  return extend(append(formals, list(variable)));
                 }
               }
             }
@@ -418,7 +422,9 @@ namespace meevax::inline kernel
               }
               else
               {
-                return reset(append(formals, list(make<macro>(cadar(sequence), caddar(sequence)))));
+                return extend(append(formals, list(make<macro>(cadar(sequence),
+                                                               make<transformer>(environment().execute(current_environment.as<syntactic_environment>().compile(caddar(sequence) /* <transformer spec> */)),
+                                                                                 current_environment)))));
               }
             }
           }
-- 
2.43.0


From 93af0fcd61536c8035d22916584c5c3acf27591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 36/69] fix: free names of macros refer to global variables
 defined after the macro

---
 src/kernel/syntactic_closure.cpp     |  4 ++--
 src/kernel/syntactic_environment.cpp | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index 62c319c..c5166c5 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -133,11 +133,11 @@ namespace meevax::inline kernel
       return syntactic_environment.as<struct syntactic_environment const>().identify(form, xs);
     };
 
-    if (let const& identity = identify(); identity != f)
+    if (let const& identity = identify(); identity != f or de_bruijn_level == 0)
     {
       return identity;
     }
-    else
+    else // The variable may be bound by a form that the syntactic closure, whose form has been α-converted, encloses.
     {
       return syntactic_environment.as<struct syntactic_environment const>().identify(form, bound_variables);
     }
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 9e5d81e..fafcefe 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -198,9 +198,19 @@ namespace meevax::inline kernel
          <variable> to a new location before performing the assignment, whereas
          it would be an error to perform a set! on an unbound variable.
       */
-      assert(not variable.is<syntactic_closure>());
-
-      return car(second = cons(make<absolute>(variable, undefined), second));
+      if (variable.is<syntactic_closure>()) // The alias is free in the environment it is closed in.
+      {
+        return variable.as<syntactic_closure>().syntactic_environment.as<syntactic_environment>().identify(variable.as<syntactic_closure>().form, unit);
+      }
+      else if (second.is<pair>()) // The syntactic environments of this scope share the list of free variables.
+      {
+        cdr(second) = cons(make<absolute>(variable, undefined), cdr(second));
+        return cadr(second);
+      }
+      else
+      {
+        return car(second = list(make<absolute>(variable, undefined)));
+      }
     }
   }
 
-- 
2.43.0


From c5357d449251fe3eae5e725db88e56d6608f0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 37/69] fix: free names and literals of macros denote the
 innermost binding, also when it was renamed because of an outer one

---
 .../meevax/kernel/syntactic_environment.hpp   |  2 +-
 library/meevax.ss                             |  4 +--
 src/kernel/syntactic_closure.cpp              | 26 ++++++++++++++++---
 src/kernel/syntactic_environment.cpp          | 15 ++++++++---
 4 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/include/meevax/kernel/syntactic_environment.hpp b/include/meevax/kernel/syntactic_environment.hpp
index 95e36a2..28f97e9 100644
--- a/include/meevax/kernel/syntactic_environment.hpp
+++ b/include/meevax/kernel/syntactic_environment.hpp
@@ -40,7 +40,7 @@ namespace meevax::inline kernel
                   object const& continuation = list(make<instruction>(instruction::secd_stop)),
                   bool tail = false) -> object;
 
-    auto identify(object const& variable, object const& bound_variables) const -> object;
+    auto identify(object const& variable, object const& bound_variables, bool renamed = false) const -> object;
 
     auto identify(object const& variable, object const& bound_variables) -> object;
 
diff --git a/library/meevax.ss b/library/meevax.ss
index 163bcb7..c9d1d64 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -22,8 +22,8 @@
 
          (define (identifier=? environment1 identifier1
                                environment2 identifier2)
-           (eqv? (if (syntactic-closure? identifier1) identifier1 (make-syntactic-closure environment1 '() identifier1))
-                 (if (syntactic-closure? identifier2) identifier2 (make-syntactic-closure environment2 '() identifier2))))
+           (eqv? (make-syntactic-closure environment1 '() identifier1)
+                 (make-syntactic-closure environment2 '() identifier2)))
 
          (define (er-macro-transformer f)
            (lambda (form use-env mac-env)
diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index c5166c5..f60be85 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -130,7 +130,7 @@ namespace meevax::inline kernel
         xs = cons(unit, xs);
       }
 
-      return syntactic_environment.as<struct syntactic_environment const>().identify(form, xs);
+      return syntactic_environment.as<struct syntactic_environment const>().identify(form, xs, true);
     };
 
     if (let const& identity = identify(); identity != f or de_bruijn_level == 0)
@@ -155,10 +155,30 @@ namespace meevax::inline kernel
        cond clause. A macro definition for syntax-rules would use
        free-identifier=? to look for literals in the input.
     */
+    auto identify = [](auto const& x, auto const& y)
+    {
+      let bound_variables = x.syntactic_environment.template as<struct syntactic_environment>().first;
+
+      for (auto offset = length(y.syntactic_environment.template as<struct syntactic_environment>().first) - length(bound_variables); 0 < offset; --offset) // De Bruijn indices are comparable only if they are relative to the same level.
+      {
+        bound_variables = cons(unit, bound_variables);
+      }
+
+      let const identity = x.syntactic_environment.template as<struct syntactic_environment const>().identify(x.form, bound_variables, true);
+
+      return identity != f ? identity : make<absolute>(syntactic_environment::strip(x.form), undefined);
+    };
+
+    auto is_same = [](let const& a, let const& b)
+    {
+      return eqv(a, b) or (((a.is<relative>() and b.is<relative>()) or (a.is<variadic>() and b.is<variadic>())) and
+                           eqv(car(a), car(b)) and
+                           eqv(cdr(a), cdr(b)));
+    };
+
     return x.form.template is_also<identifier>() and
            y.form.template is_also<identifier>() and
-           eqv(x.syntactic_environment.as<struct syntactic_environment>().identify(x.form, x.syntactic_environment.as<struct syntactic_environment>().first),
-               y.syntactic_environment.as<struct syntactic_environment>().identify(y.form, y.syntactic_environment.as<struct syntactic_environment>().first));
+           is_same(identify(x, y), identify(y, x));
   }
 
   auto operator <<(std::ostream & os, syntactic_closure const& datum) -> std::ostream &
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index fafcefe..50208a2 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -132,10 +132,19 @@ namespace meevax::inline kernel
   }
 
   auto syntactic_environment::identify(object const& variable,
-                                       object const& bound_variables) const -> object
+                                       object const& bound_variables,
+                                       bool renamed /* Whether to look for variables under the names α-conversion has renamed them from, too. */) const -> object
   {
     assert(variable.is_also<identifier>());
 
+    auto binds = [&](let const& formal)
+    {
+      return eq(formal, variable) or (renamed and
+                                      formal.is<syntactic_closure>() and
+                                      formal.as<syntactic_closure>().de_bruijn_level > 0 and
+                                      eq(formal.as<syntactic_closure>().form, variable));
+    };
+
     for (auto i = 0; let formals : bound_variables | as_proper_list)
     {
       for (auto j = 0; not formals.is<null>(); formals = cdr(formals))
@@ -146,12 +155,12 @@ namespace meevax::inline kernel
           {
             return car(formals);
           }
-          else if (eq(car(formals), variable))
+          else if (binds(car(formals)))
           {
             return make<relative>(make<small_integer>(i), make<small_integer>(j));
           }
         }
-        else if (formals.is_also<identifier>() and eq(formals, variable))
+        else if (formals.is_also<identifier>() and binds(formals))
         {
           return make<variadic>(make<small_integer>(i), make<small_integer>(j));
         }
-- 
2.43.0


From 3dd7870cd3ae8498ffabfafa46da69195a60c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 38/69] fix: free names of macros refer to global variables
 defined after the use

---
 src/kernel/syntactic_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 50208a2..d52d184 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -59,7 +59,7 @@ namespace meevax::inline kernel
   {
     if (not form.is<pair>())
     {
-      if (form.is<syntactic_closure>() and identify(form, bound_variables) == f)
+      if (form.is<syntactic_closure>() and not form.as<syntactic_closure>().form.is_also<identifier>() and identify(form, bound_variables) == f)
       {
         return form.as<syntactic_closure>().expand(bound_variables, alpha);
       }
-- 
2.43.0


From 8539cbc4bcba129182358ef3283f4922ee399fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 39/69] fix: vector-copy! copies as if through a temporary
 vector when source and destination overlap

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index f84aa6d..dbcbaaa 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -396,7 +396,7 @@ namespace meevax::inline kernel
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
-      { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); switch (length(xs)) { case 3: std::copy(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
+      { "vector-copy!",                  [](let const& xs) { auto copy = [&](auto first, auto last) { if (auto at = std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))); eq(car(xs), caddr(xs)) and first < at) { std::copy_backward(first, last, std::next(at, std::distance(first, last))); } else { std::copy(first, last, at); } return unspecified; }; auto begin = caddr(xs).as<vector>().objects.begin(); switch (length(xs)) { case 3: return copy(begin, caddr(xs).as<vector>().objects.end()); case 4: return copy(std::next(begin, exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end()); case 5: return copy(std::next(begin, exact_integer_cast<std::size_t>(cadddr(xs))), std::next(begin, exact_integer_cast<std::size_t>(caddddr(xs)))); default: throw error(make<string>("procedure vector-copy! takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
       { "vector-fill!",                  [](let const& xs) { switch (length(xs)) { case 2: std::fill(car(xs).as_mutable<vector>().objects.begin(), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 3: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 4: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), cadr(xs)); return unspecified; default: return unspecified; } } },
 
-- 
2.43.0


From 8a04fd3bd69378f3800163d3eabbdd14f5e82e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 40/69] fix: string->vector and string->utf8 respect their
 start and end arguments

---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index dbcbaaa..4990018 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -394,7 +394,7 @@ namespace meevax::inline kernel
       { "vector->list",                  [](let const& xs) { switch (length(xs)) { case 1: return std::accumulate(car(xs).as<vector>().objects.rbegin(), car(xs).as<vector>().objects.rend(), unit, xcons); case 2: return std::accumulate(car(xs).as<vector>().objects.rbegin(), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); case 3: return std::accumulate(std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "list->vector",                  [](let const& xs) { return make<vector>(car(xs) | as_proper_list); } },
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
-      { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
+      { "string->vector",                [](let const& xs) { let v = make<vector>(); auto push_back = [&](character const& c) { v.as<vector>().objects.push_back(make<character>(c)); }; auto begin = car(xs).as<string>().characters.begin(); auto end = car(xs).as<string>().characters.end(); switch (length(xs)) { case 1: std::for_each(begin, end, push_back); return v; case 2: std::for_each(std::next(begin, exact_integer_cast<std::size_t>(cadr(xs))), end, push_back); return v; case 3: std::for_each(std::next(begin, exact_integer_cast<std::size_t>(cadr(xs))), std::next(begin, exact_integer_cast<std::size_t>(caddr(xs))), push_back); return v; default: throw error(make<string>("procedure string->vector takes one to three arugments, but got"), xs); } } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
       { "vector-copy!",                  [](let const& xs) { auto copy = [&](auto first, auto last) { if (auto at = std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))); eq(car(xs), caddr(xs)) and first < at) { std::copy_backward(first, last, std::next(at, std::distance(first, last))); } else { std::copy(first, last, at); } return unspecified; }; auto begin = caddr(xs).as<vector>().objects.begin(); switch (length(xs)) { case 3: return copy(begin, caddr(xs).as<vector>().objects.end()); case 4: return copy(std::next(begin, exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end()); case 5: return copy(std::next(begin, exact_integer_cast<std::size_t>(cadddr(xs))), std::next(begin, exact_integer_cast<std::size_t>(caddddr(xs)))); default: throw error(make<string>("procedure vector-copy! takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
@@ -418,7 +418,7 @@ namespace meevax::inline kernel
                                                  REGISTER_VECTOR(f32), REGISTER_VECTOR(f64),
 
       { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return input_string_port(buffer.str()).get(std::numeric_limits<std::size_t>::max()); } },
-      { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; return convert(car(xs).as<string>().utf8()); } },
+      { "string->u8vector",              [](let const& xs) { auto convert = [](auto first, auto last) { auto const s = string(first, last).utf8(); return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; auto begin = car(xs).as<string>().characters.begin(); auto end = car(xs).as<string>().characters.end(); switch (length(xs)) { case 1: return convert(begin, end); case 2: return convert(std::next(begin, exact_integer_cast<std::size_t>(cadr(xs))), end); case 3: return convert(std::next(begin, exact_integer_cast<std::size_t>(cadr(xs))), std::next(begin, exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure string->u8vector takes one to three arguments, but got"), xs); } } },
 
       { "put-char",                      [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<character>()); return unspecified; } },
       { "put-string",                    [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<string>()); return unspecified; } },
-- 
2.43.0


From e285caee9a710def13446dad2743f91eef282a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 41/69] fix: utf8->string of no bytes is the empty string
 instead of an end-of-file object

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 4990018..8a4b599 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -417,7 +417,7 @@ namespace meevax::inline kernel
       REGISTER_VECTOR(u8), REGISTER_VECTOR(u16), REGISTER_VECTOR(u32), REGISTER_VECTOR(u64),
                                                  REGISTER_VECTOR(f32), REGISTER_VECTOR(f64),
 
-      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return input_string_port(buffer.str()).get(std::numeric_limits<std::size_t>::max()); } },
+      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return make<string>(buffer.str()); } },
       { "string->u8vector",              [](let const& xs) { auto convert = [](auto first, auto last) { auto const s = string(first, last).utf8(); return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; auto begin = car(xs).as<string>().characters.begin(); auto end = car(xs).as<string>().characters.end(); switch (length(xs)) { case 1: return convert(begin, end); case 2: return convert(std::next(begin, exact_integer_cast<std::size_t>(cadr(xs))), end); case 3: return convert(std::next(begin, exact_integer_cast<std::size_t>(cadr(xs))), std::next(begin, exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure string->u8vector takes one to three arguments, but got"), xs); } } },
 
       { "put-char",                      [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<character>()); return unspecified; } },
-- 
2.43.0


From c63850aead9211fe28fd3ca11dc07cd9149113df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 42/69] fix: bytevector-append accepts any number of
 bytevectors

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 8a4b599..40a29e7 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -409,7 +409,7 @@ namespace meevax::inline kernel
       { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
       { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = caddr(xs).as<TAG##vector>().values[j]; }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
-      { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
+      { #TAG "vector-append",            [](let const& xs) { auto size = std::size_t(0); for (let const& x : xs | as_proper_list) { size += x.as<TAG##vector>().values.size(); } let const v = make<TAG##vector>(size); auto offset = std::size_t(0); for (let const& x : xs | as_proper_list) { v.as<TAG##vector>().values[std::slice(offset, x.as<TAG##vector>().values.size(), 1)] = x.as<TAG##vector>().values; offset += x.as<TAG##vector>().values.size(); } return v; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
 
-- 
2.43.0


From b77c6230c31639aba789b243d079140962ac368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 43/69] =?UTF-8?q?fix:=20string-ci=3D=3F,=20string-ci>=3F,?=
 =?UTF-8?q?=20string-ci<=3D=3F=20and=20string-ci>=3D=3F=20compare=20the=20?=
 =?UTF-8?q?whole=20strings?=

---
 src/kernel/boot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 40a29e7..011be7d 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -356,11 +356,11 @@ namespace meevax::inline kernel
       { "string>?",                      [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >  b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string<=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() <= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string>=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci=?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() == c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci=?",                 [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return less_than(s1, s2) or less_than(s2, s1); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>?",                 [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return not less_than(s2, s1); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<=?",                [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return less_than(s2, s1); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>=?",                [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return less_than(s1, s2); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string-append",                 [](let const& xs) { let s = make<string>(); for (let const& x : xs | as_proper_list) { s.as<string>().characters.insert(s.as<string>().characters.end(), x.as<string>().characters.begin(), x.as<string>().characters.end()); } return s; } },
       { "string->list",                  [](let const& xs) { auto push = [](let const& xs, character const& c) { return cons(make<character>(c), xs); }; switch (length(xs)) { case 1: return std::accumulate(car(xs).as<string>().characters.rbegin(), car(xs).as<string>().characters.rend(), unit, push); case 2: return std::accumulate(car(xs).as<string>().characters.rbegin(), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); case 3: return std::accumulate(std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); default: throw error(make<string>("procedure string->list takes one to three arugments, but got"), xs); } } },
       { "list->string",                  [](let const& xs) { return make<string>(car(xs) | as_proper_list); } },
-- 
2.43.0


From 1686a78276fff1528905470593ce5e73a092167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 44/69] fix: homogeneous vectors of different lengths are not
 equal

---
 include/meevax/kernel/homogeneous_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 99eeeae..67f5306 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       return std::all_of(std::begin(xs), std::end(xs), [](auto x) { return x; });
     };
 
-    return check(a.values == b.values);
+    return a.values.size() == b.values.size() and check(a.values == b.values);
   }
 
   #define FOR_EACH_BITS(F) F(8) F(16) F(32) F(64)
-- 
2.43.0


From e5cb5d2088fe07aadab49480643f9e61c607cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 45/69] fix: strings are written with non-ASCII bytes intact
 whatever the signedness of char

---
 src/kernel/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/string.cpp b/src/kernel/string.cpp
index 2ce1822..23d1b66 100644
--- a/src/kernel/string.cpp
+++ b/src/kernel/string.cpp
@@ -56,7 +56,7 @@ namespace meevax::inline kernel
   {
     auto put = [&](character const& c) -> decltype(auto)
     {
-      if (std::isprint(c.codepoint))
+      if (c.codepoint < 0x80 and std::isprint(c.codepoint))
       {
         switch (c.codepoint)
         {
-- 
2.43.0


From 1bddc6f08e56af936f1d8e40aee03950c85c4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 46/69] fix: write quotes symbols whose names would read as
 numbers or a dot

---
 src/kernel/symbol.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/kernel/symbol.cpp b/src/kernel/symbol.cpp
index edfd965..af848ef 100644
--- a/src/kernel/symbol.cpp
+++ b/src/kernel/symbol.cpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <meevax/kernel/collector.hpp>
 #include <meevax/kernel/error.hpp>
+#include <meevax/kernel/number.hpp>
 #include <meevax/kernel/string.hpp>
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/textual_input_port.hpp>
@@ -28,13 +29,26 @@ namespace meevax::inline kernel
     return a.name + b.name;
   }
 
+  auto is_number(std::string const& token) -> bool
+  {
+    try
+    {
+      make_number(token, 10);
+      return true;
+    }
+    catch (std::invalid_argument const&)
+    {
+      return false;
+    }
+  }
+
   auto operator <<(std::ostream & os, symbol const& datum) -> std::ostream &
   {
     if (datum.name.empty())
     {
       return os << "||";
     }
-    else if (std::find_if(datum.name.begin(), datum.name.end(), is_special_character) != datum.name.end())
+    else if (std::find_if(datum.name.begin(), datum.name.end(), is_special_character) != datum.name.end() or datum.name == "." or is_number(datum.name))
     {
       return os << cyan("#") << string(datum.name);
     }
-- 
2.43.0


From 8fed96e46a385140ce5571353410c778c2e5fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 47/69] fix: write-simple writes the tail of a dotted list

---
 src/kernel/textual_output_port.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/textual_output_port.cpp b/src/kernel/textual_output_port.cpp
index 2b1c0ff..452fd3c 100644
--- a/src/kernel/textual_output_port.cpp
+++ b/src/kernel/textual_output_port.cpp
@@ -61,7 +61,7 @@ namespace meevax::inline kernel
 
           write_simple(rest);
 
-          os << magenta(")");
+          break;
         }
       }
 
-- 
2.43.0


From 7d487518ccb28dfd1d2bbf8db2dea1f7d14d0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 48/69] fix: decimal points and exponents are read in radix 10
 only

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index ece9e69..2652552 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -474,7 +474,7 @@ namespace meevax::inline kernel
       {
         return make<double>(iter->second);
       }
-      else if (auto result = std::smatch(); std::regex_match(literal, result, pattern))
+      else if (auto result = std::smatch(); radix == 10 and std::regex_match(literal, result, pattern))
       {
         /*
            R7RS 6.2.5. Syntax of numerical constants
-- 
2.43.0


From c541de451e90536c04745b7ea0bbaad22c80b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 49/69] fix: write labels cycles through cars and vectors

---
 src/kernel/collector.cpp |   5 --
 src/kernel/pair.cpp      | 126 +++++++++++++++++++++++++++++----------
 2 files changed, 95 insertions(+), 36 deletions(-)

diff --git a/src/kernel/collector.cpp b/src/kernel/collector.cpp
index 3858458..f4361e7 100644
--- a/src/kernel/collector.cpp
+++ b/src/kernel/collector.cpp
@@ -105,11 +105,6 @@ namespace meevax::inline kernel
     return *this ? pointer::unsafe_get()->write(os) : pointer::write(os);
   }
 
-  auto operator <<(std::ostream & os, object const& datum) -> std::ostream &
-  {
-    return datum.write(os);
-  }
-
   auto clear() noexcept -> void
   {
     for (auto const& datum : data)
diff --git a/src/kernel/pair.cpp b/src/kernel/pair.cpp
index 41a6bb8..dd109fe 100644
--- a/src/kernel/pair.cpp
+++ b/src/kernel/pair.cpp
@@ -14,10 +14,12 @@
    limitations under the License.
 */
 
-#include <meevax/kernel/circular_list.hpp>
-#include <meevax/kernel/list.hpp>
+#include <algorithm>
 #include <unordered_map>
 
+#include <meevax/kernel/list.hpp>
+#include <meevax/kernel/vector.hpp>
+
 namespace meevax::inline kernel
 {
   auto pair::eqv(pair const* x) const -> bool
@@ -35,7 +37,7 @@ namespace meevax::inline kernel
     return o << static_cast<pair const&>(*this);
   }
 
-  struct datum_labels
+  struct datum_labels // Of the pairs and vectors that contain themselves. A label of zero is not written yet.
   {
     std::ostream & os;
 
@@ -45,12 +47,12 @@ namespace meevax::inline kernel
 
     using table = std::unordered_map<pair const*, std::size_t>;
 
-    explicit datum_labels(std::ostream & os)
+    explicit datum_labels(std::ostream & os, object const& datum)
       : os { os }
     {
       if (not os.iword(count_index)++)
       {
-        os.pword(table_index) = new table();
+        os.pword(table_index) = new table(scan(datum));
       }
     }
 
@@ -62,51 +64,113 @@ namespace meevax::inline kernel
       }
     }
 
-    auto static of(std::ostream & os)
+    auto static of(std::ostream & os, object const& datum) -> std::size_t *
     {
-      return static_cast<table *>(os.pword(table_index));
+      if (auto labels = static_cast<table *>(os.pword(table_index)); labels)
+      {
+        if (auto iter = labels->find(datum.get()); iter != labels->end())
+        {
+          return &iter->second;
+        }
+      }
+
+      return nullptr;
     }
-  };
 
-  auto operator <<(std::ostream & os, pair const& datum) -> std::ostream &
-  {
-    auto _ = datum_labels(os);
+    auto static next(std::ostream & os) -> std::size_t
+    {
+      auto const& labels = *static_cast<table *>(os.pword(table_index));
 
-    if (is_circular_list(datum.second))
+      return std::ranges::count_if(labels, [](auto const& each) { return each.second; }) + 1;
+    }
+
+    auto static scan(object const& datum) -> table
     {
-      if (auto [iterator, success] = datum_labels::of(os)->emplace(&datum, datum_labels::of(os)->size() + 1); success)
+      auto labels = table();
+
+      auto opened = std::unordered_map<pair const*, bool>();
+
+      auto stack = std::vector<std::pair<object const*, std::size_t>>();
+
+      auto open = [&](object const& x)
+      {
+        if (x.is<pair>() or x.is<vector>())
+        {
+          if (auto [iter, success] = opened.emplace(x.get(), true); success)
+          {
+            stack.emplace_back(&x, 0);
+          }
+          else if (iter->second)
+          {
+            labels.emplace(x.get(), 0);
+          }
+        }
+      };
+
+      open(datum);
+
+      while (not stack.empty())
       {
-        os << magenta("#", iterator->second, "=(");
+        auto & [x, i] = stack.back();
 
-        for (auto&& x : datum | as_circular_list)
+        if (auto const n = i++; x->is<pair>() and n < 2)
         {
-          os << x << " ";
+          open(n == 0 ? car(*x) : cdr(*x));
         }
+        else if (x->is<vector>() and n < x->as<vector>().objects.size())
+        {
+          open(x->as<vector>().objects[n]);
+        }
+        else
+        {
+          opened[x->get()] = false;
+          stack.pop_back();
+        }
+      }
+
+      return labels;
+    }
+  };
+
+  auto operator <<(std::ostream & os, object const& datum) -> std::ostream &
+  {
+    if (datum.is<pair>() or datum.is<vector>())
+    {
+      auto _ = datum_labels(os, datum);
 
-        return os << magenta(". #", iterator->second, "#)");
+      if (auto label = datum_labels::of(os, datum); label and *label)
+      {
+        return os << magenta("#", *label, "#");
       }
-      else
+      else if (label)
       {
-        return os << magenta("#", iterator->second, "#");
+        os << magenta("#", *label = datum_labels::next(os), "=");
       }
+
+      return datum.write(os);
     }
     else
     {
-      os << magenta("(") << datum.first;
+      return datum.write(os);
+    }
+  }
 
-      for (let xs = datum.second; not xs.is<null>(); xs = cdr(xs))
+  auto operator <<(std::ostream & os, pair const& datum) -> std::ostream &
+  {
+    os << magenta("(") << datum.first;
+
+    for (let xs = datum.second; not xs.is<null>(); xs = cdr(xs))
+    {
+      if (xs.is<pair>() and not datum_labels::of(os, xs))
       {
-        if (xs.is<pair>())
-        {
-          os << " " << car(xs);
-        }
-        else // xs is the last element of dotted-list.
-        {
-          return os << magenta(" . ") << xs << magenta(")");
-        }
+        os << " " << car(xs);
+      }
+      else // xs is the last element of dotted-list.
+      {
+        return os << magenta(" . ") << xs << magenta(")");
       }
-
-      return os << magenta(")");
     }
+
+    return os << magenta(")");
   }
 } // namespace meevax::kernel
-- 
2.43.0


From e2c2b1daafde1bc53cc26f93b6d1ce4e9dcaadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 50/69] fix: the reader delimits data exactly and reports
 malformed text as a read error

---
 include/meevax/kernel/textual_input_port.hpp |  16 +-
 src/kernel/textual_input_port.cpp            | 421 ++++++++++++++-----
 2 files changed, 332 insertions(+), 105 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 0b06064..bcdfbf8 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -80,7 +80,17 @@ namespace meevax::inline kernel
 
     auto peek_character() -> character;
 
-    auto read(character = {}) -> object;
+    auto read() -> object;
+
+    auto read_datum() -> object;
+
+    auto read_elements(character) -> object;
+
+    auto read_list() -> object;
+
+    auto read_number() -> object;
+
+    auto read_unless_delimited() -> object;
 
     auto take_character() -> character;
 
@@ -91,7 +101,7 @@ namespace meevax::inline kernel
 
       while (get_ready() and not satisfy(c = take_character()))
       {
-        s += c;
+        s += c.utf8();
       }
 
       return s;
@@ -104,7 +114,7 @@ namespace meevax::inline kernel
 
       while (get_ready() and satisfy(peek_character()))
       {
-        s += take_character();
+        s += take_character().utf8();
       }
 
       return s;
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index fb3681e..2912386 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -14,12 +14,15 @@
    limitations under the License.
 */
 
+#include <unordered_set>
+
 #include <meevax/iostream/lexical_cast.hpp>
 #include <meevax/kernel/boolean.hpp>
 #include <meevax/kernel/environment.hpp>
 #include <meevax/kernel/eof.hpp>
 #include <meevax/kernel/homogeneous_vector.hpp>
 #include <meevax/kernel/interaction_environment.hpp>
+#include <meevax/kernel/number.hpp>
 #include <meevax/kernel/string.hpp>
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/textual_input_port.hpp>
@@ -76,6 +79,15 @@ namespace meevax::inline kernel
     return not (a == b);
   }
 
+  struct delimiter // Closes a list or precedes its tail.
+  {
+    char value;
+
+    explicit constexpr delimiter(char value)
+      : value { value }
+    {}
+  };
+
   struct datum_label
   {
     std::string const n;
@@ -85,19 +97,41 @@ namespace meevax::inline kernel
     {}
   };
 
-  auto circulate(object & xs, object const& x, std::string const& n) -> void
+  auto circulate(object const& x, object const& label) -> void // Replaces every occurrence of the label in x by x itself.
   {
-    if (xs.is<pair>())
+    auto stack = std::vector<object> { x };
+
+    auto visited = std::unordered_set<pair const*>();
+
+    auto visit = [&](object & y)
     {
-      circulate(car(xs), x, n);
+      if (y == label)
+      {
+        y = x;
+      }
+      else if (y.is<pair>() or y.is<vector>())
+      {
+        stack.push_back(y);
+      }
+    };
 
-      if (cdr(xs).is<datum_label>() and cdr(xs).as<datum_label>().n == n)
+    while (not stack.empty())
+    {
+      if (let y = std::exchange(stack.back(), nullptr); stack.pop_back(), not visited.insert(y.get()).second)
       {
-        cdr(xs) = x;
+        continue;
       }
-      else
+      else if (y.is<pair>())
       {
-        circulate(cdr(xs), x, n);
+        visit(car(y));
+        visit(cdr(y));
+      }
+      else if (y.is<vector>())
+      {
+        for (auto & each : y.as<vector>().objects)
+        {
+          visit(each);
+        }
       }
     }
   }
@@ -155,13 +189,13 @@ namespace meevax::inline kernel
 
   auto textual_input_port::get_line() -> object
   {
-    if (auto s = take_character_until([](auto c) { return c == '\n'; }); at_end_of_file())
+    if (peek_character().is_eof())
     {
       return eof_object;
     }
     else
     {
-      return make<string>(s);
+      return make<string>(take_character_until([](auto c) { return c == '\n' or character::is_eof(c); }));
     }
   }
 
@@ -184,6 +218,11 @@ namespace meevax::inline kernel
 
   auto textual_input_port::peek_character() -> character
   {
+    if (character::is_eof(istream().peek()))
+    {
+      return character(EOF);
+    }
+
     auto c = take_character();
 
     auto const s = c.utf8();
@@ -196,14 +235,163 @@ namespace meevax::inline kernel
     return c;
   }
 
-  auto textual_input_port::read(character c0) -> object
+  auto textual_input_port::read() -> object
+  {
+    datum_labels.clear(); // The scope of a datum label is the outermost datum in which it appears.
+
+    try
+    {
+      let const x = read_unless_delimited();
+      datum_labels.clear();
+      return x;
+    }
+    catch (delimiter const& unexpected)
+    {
+      throw read_error(make<string>("unexpected delimiter"), make<character>(unexpected.value));
+    }
+    catch (std::logic_error const& e) // NOTE: by conversions of the text of numbers.
+    {
+      throw read_error(make<string>(e.what()), unit);
+    }
+  }
+
+  auto textual_input_port::read_datum() -> object // NOTE: Reads a component of another datum.
+  {
+    try
+    {
+      if (let const x = read_unless_delimited(); not x.is<eof>())
+      {
+        return x;
+      }
+    }
+    catch (delimiter const& unexpected)
+    {
+      throw read_error(make<string>("unexpected delimiter"), make<character>(unexpected.value));
+    }
+
+    throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+  }
+
+  auto textual_input_port::read_elements(character c) -> object
+  {
+    if (c != '(')
+    {
+      throw read_error(make<string>("a list of elements is expected"), unit);
+    }
+    else if (let const xs = read_list(); is_proper_list(xs))
+    {
+      return xs;
+    }
+    else
+    {
+      throw read_error(make<string>("a proper list of elements is expected"), xs);
+    }
+  }
+
+  auto textual_input_port::read_list() -> object // NOTE: Reads the rest of a list whose opening parenthesis is already read.
+  {
+    let xs = unit;
+
+    let last = unit;
+
+    while (true)
+    {
+      try
+      {
+        if (let const x = read_unless_delimited(); x.is<eof>())
+        {
+          throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+        }
+        else if (let const p = cons(x, unit); last)
+        {
+          cdr(last) = p;
+          last = p;
+        }
+        else
+        {
+          xs = last = p;
+        }
+      }
+      catch (delimiter const& t)
+      {
+        if (t.value == ')')
+        {
+          return xs;
+        }
+        else if (not last)
+        {
+          throw read_error(make<string>("a datum is expected before the dot"), unit);
+        }
+
+        cdr(last) = read_datum();
+
+        try
+        {
+          read_unless_delimited();
+        }
+        catch (delimiter const& t)
+        {
+          if (t.value == ')')
+          {
+            return xs;
+          }
+        }
+
+        throw read_error(make<string>("exactly one datum is expected after the dot"), unit);
+      }
+    }
+  }
+
+  auto textual_input_port::read_number() -> object
+  {
+    if (let const x = read_datum(); number::is_complex(x))
+    {
+      return x;
+    }
+    else
+    {
+      throw read_error(make<string>("a number is expected"), x);
+    }
+  }
+
+  auto textual_input_port::read_unless_delimited() -> object
   {
     auto is_digit = [](auto c)
     {
-      return std::isdigit(c);
+      return '0' <= c and c <= '9';
+    };
+
+    auto boolean = [](std::string const& token) -> object const&
+    {
+      if (token == "t" or token == "true")
+      {
+        return t;
+      }
+      else if (token == "f" or token == "false")
+      {
+        return f;
+      }
+      else
+      {
+        throw read_error(make<string>("An unknown literal expression was encountered"),
+                         make<string>("#" + token));
+      }
+    };
+
+    auto scalar_value = [](std::string const& digits) -> character::int_type
+    {
+      if (not digits.empty() and digits.find_first_not_of("0123456789ABCDEFabcdef") == std::string::npos)
+      {
+        if (auto const n = std::stoul(digits, nullptr, 16); n < 0xD800 or (0xDFFF < n and n <= 0x10FFFF))
+        {
+          return n;
+        }
+      }
+
+      throw read_error(make<string>("not a Unicode scalar value in hexadecimal"), make<string>(digits));
     };
 
-    auto take_quoted = [this](character quotation_mark)
+    auto take_quoted = [&](character quotation_mark)
     {
       auto s = string();
 
@@ -225,11 +413,36 @@ namespace meevax::inline kernel
           case 'r': s.characters.emplace_back('\r'); break;
           case 't': s.characters.emplace_back('\t'); break;
           case 'v': s.characters.emplace_back('\v'); break;
-          case 'x': s.characters.emplace_back(lexical_cast<character::int_type>(std::hex, take_character_until([](auto c) { return c == ';'; }))); break;
+          case 'x': s.characters.emplace_back(scalar_value(take_character_until([](auto c) { return c == ';'; }))); break;
 
+          case '\t':
+          case ' ':
           case '\n':
           case '\r':
-            take_character_while([](auto c) { return std::isspace(c); });
+            {
+              auto is_blank = [](auto c)
+              {
+                return c == '\t' or c == ' ';
+              };
+
+              auto newline = c;
+
+              while (is_blank(newline))
+              {
+                newline = take_character();
+              }
+
+              if (newline == '\r' and peek_character() == '\n')
+              {
+                take_character();
+              }
+              else if (newline != '\r' and newline != '\n')
+              {
+                throw read_error(make<string>("a line ending is expected"), unit);
+              }
+
+              take_character_while(is_blank);
+            }
             break;
 
           default:
@@ -262,9 +475,49 @@ namespace meevax::inline kernel
       return token.utf8();
     };
 
-    while (get_ready())
+    auto read_homogeneous_vector = [&]<typename T>() -> object
     {
-      switch (auto const c1 = c0 ? c0 : take_character())
+      try
+      {
+        return make<T>(read_elements(take_character()) | as_proper_list);
+      }
+      catch (read_error const&)
+      {
+        throw;
+      }
+      catch (error const& e)
+      {
+        throw read_error(e.message(), e.irritants());
+      }
+    };
+
+    auto take_number = [&](int radix)
+    {
+      if (auto c1 = take_character(); c1 == '#')
+      {
+        switch (take_character())
+        {
+        case 'E':
+        case 'e':
+          return number::exact(make_number(take_token(take_character()), radix));
+
+        case 'I':
+        case 'i':
+          return number::inexact(make_number(take_token(take_character()), radix));
+
+        default:
+          throw read_error(make<string>("unknown exactness"), unit);
+        }
+      }
+      else
+      {
+        return make_number(take_token(c1), radix);
+      }
+    };
+
+    while (true)
+    {
+      switch (auto const c1 = take_character())
       {
       case EOF:
         return eof_object;
@@ -297,14 +550,14 @@ namespace meevax::inline kernel
             take_character_until([](auto c) { return c == '\n'; });
           }
 
-          return read();
+          return read_unless_delimited();
 
         case ',': // SRFI 10
-          return interaction_environment().as<environment>().evaluate(read());
+          return interaction_environment().as<environment>().evaluate(read_datum());
 
         case ';': // SRFI 62
-          read(); // Discard an expression.
-          return read();
+          read_datum(); // Discard an expression.
+          return read_unless_delimited();
 
         case '"':
           return make_symbol(take_quoted(c2).utf8());
@@ -338,15 +591,15 @@ namespace meevax::inline kernel
             case '=':
               if (auto [iter, success] = datum_labels.emplace(n, make<datum_label>(n)); success)
               {
-                if (let xs = read(); xs != iter->second)
+                if (let const label = iter->second, x = read_datum(); x != label)
                 {
-                  circulate(xs, xs, n);
-                  datum_labels.erase(n);
-                  return xs;
+                  circulate(x, label);
+                  return datum_labels[n] = x;
                 }
                 else
                 {
-                  return nullptr;
+                  throw read_error(make<string>("it is an error to define a datum-label by itself"),
+                                   make<string>(n));
                 }
               }
               else
@@ -361,70 +614,53 @@ namespace meevax::inline kernel
             }
           }
 
+        case 'B':
         case 'b':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read()), 2);
-
-          default:
-            return make_number(take_token(c3), 2);
-          }
+          return take_number(2);
 
+        case 'D':
         case 'd':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read()), 10);
-
-          default:
-            return make_number(take_token(c3), 10);
-          }
+          return take_number(10);
 
+        case 'E':
         case 'e':
-          return number::exact(read()); // NOTE: Same as #,(exact (read))
+          return number::exact(read_number()); // NOTE: Same as #,(exact (read))
 
         case 'f':
           switch (std::stoi(take_character_while(is_digit, character('0'))))
           {
           case 32:
-            return make<f32vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<f32vector>();
 
           case 64:
-            return make<f64vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<f64vector>();
 
           default:
-            take_token(c2);
-            return f;
+            return boolean(take_token(c2));
           }
 
+        case 'I':
         case 'i':
-          return number::inexact(read()); // NOTE: Same as #,(inexact (read))
+          return number::inexact(read_number()); // NOTE: Same as #,(inexact (read))
 
+        case 'O':
         case 'o':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read()), 8);
-
-          default:
-            return make_number(take_token(c3), 8);
-          }
+          return take_number(8);
 
         case 's':
           switch (auto n = take_character_while(is_digit); std::stoi(n))
           {
           case 8:
-            return make<s8vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<s8vector>();
 
           case 16:
-            return make<s16vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<s16vector>();
 
           case 32:
-            return make<s32vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<s32vector>();
 
           case 64:
-            return make<s64vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<s64vector>();
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -432,50 +668,47 @@ namespace meevax::inline kernel
           }
 
         case 't':
-          take_token(c2);
-          return t;
+          return boolean(take_token(c2));
 
         case 'u':
           switch (auto const n = take_character_while(is_digit); std::stoi(n))
           {
           case 8:
-            return make<u8vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<u8vector>();
 
           case 16:
-            return make<u16vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<u16vector>();
 
           case 32:
-            return make<u32vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<u32vector>();
 
           case 64:
-            return make<u64vector>(read() | as_proper_list);
+            return read_homogeneous_vector.operator()<u64vector>();
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
                              make<string>(lexical_cast(c1, c2, n)));
           }
 
+        case 'X':
         case 'x':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read()), 16);
-
-          default:
-            return make_number(take_token(c3), 16);
-          }
+          return take_number(16);
 
         case '(':
-          return make<vector>(read(c2) | as_proper_list);
+          return make<vector>(read_elements(c2) | as_proper_list);
 
         case '\\':
-          if (auto c3 = take_character(); is_special_character(peek_character())) // #\<character>
+          if (auto c3 = take_character(); c3.is_eof())
+          {
+            throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+          }
+          else if (is_special_character(peek_character())) // #\<character>
           {
             return make<character>(c3);
           }
           else if (c3 == 'x') // #\x<hex scalar value>
           {
-            return make<character>(lexical_cast<character::int_type>(std::hex, take_token(character('0'))));
+            return make<character>(scalar_value(take_token(character('0'))));
           }
           else // #\<character name>
           {
@@ -541,44 +774,30 @@ namespace meevax::inline kernel
             }
           }
 
-          return read();
+          return read_unless_delimited();
 
         default:
           throw read_error(make<string>("unknown discriminator"), make<character>(c2));
         }
 
       case '\'': // 0x27
-        return list(make_symbol("quote"), read());
+        return list(make_symbol("quote"), read_datum());
 
       case '(':  // 0x28
-        try
-        {
-          let const& x = read();
-
-          return cons(x, read(c1));
-        }
-        catch (std::integral_constant<char, ')'> const&)
-        {
-          return nullptr;
-        }
-        catch (std::integral_constant<char, '.'> const&)
-        {
-          let const x = read();
-          take_character_until([](auto c) { return c == ')'; });
-          return x;
-        }
+        return read_list();
 
       case ')':  // 0x29
-        throw std::integral_constant<char, ')'>();
+        throw delimiter(')');
 
       case ',':  // 0x2C
-        switch (auto c = take_character())
+        switch (peek_character())
         {
         case '@':
-          return list(make_symbol("unquote-splicing"), read());
+          take_character();
+          return list(make_symbol("unquote-splicing"), read_datum());
 
         default:
-          return list(make_symbol("unquote"), read(c));
+          return list(make_symbol("unquote"), read_datum());
         }
 
       case ';':  // 0x3B
@@ -586,7 +805,7 @@ namespace meevax::inline kernel
         break;
 
       case '`':  // 0x60
-        return list(make_symbol("quasiquote"), read());
+        return list(make_symbol("quasiquote"), read_datum());
 
       case '|':  // 0x7C
         return make_symbol(take_quoted(c1).utf8());
@@ -601,7 +820,7 @@ namespace meevax::inline kernel
       default:
         if (auto && token = take_token(c1); token == ".")
         {
-          throw std::integral_constant<char, '.'>();
+          throw delimiter('.');
         }
         else try
         {
@@ -613,8 +832,6 @@ namespace meevax::inline kernel
         }
       }
     }
-
-    throw read_error(make<string>("underlying input stream went into a not good state"), unit);
   }
 
   auto textual_input_port::take_character() -> character
-- 
2.43.0


From 16829e38392d9cc9f6093c74d81b4d5539ae7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 51/69] fix: the null character is encoded as one byte instead
 of none

---
 include/meevax/kernel/textual_input_port.hpp | 12 +++---------
 src/kernel/character.cpp                     |  2 +-
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index bcdfbf8..a28a7e8 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -88,18 +88,14 @@ namespace meevax::inline kernel
 
     auto read_list() -> object;
 
-    auto read_number() -> object;
-
     auto read_unless_delimited() -> object;
 
     auto take_character() -> character;
 
     template <typename F>
-    auto take_character_until(F satisfy, character c = {})
+    auto take_character_until(F satisfy, std::string s = {})
     {
-      auto s = c.utf8();
-
-      while (get_ready() and not satisfy(c = take_character()))
+      for (character c; get_ready() and not satisfy(c = take_character()); )
       {
         s += c.utf8();
       }
@@ -108,10 +104,8 @@ namespace meevax::inline kernel
     }
 
     template <typename F>
-    auto take_character_while(F satisfy, character c = {})
+    auto take_character_while(F satisfy, std::string s = {})
     {
-      auto s = c.utf8();
-
       while (get_ready() and satisfy(peek_character()))
       {
         s += take_character().utf8();
diff --git a/src/kernel/character.cpp b/src/kernel/character.cpp
index 9914347..1ccf119 100644
--- a/src/kernel/character.cpp
+++ b/src/kernel/character.cpp
@@ -28,7 +28,7 @@ namespace meevax::inline kernel
 
     if (codepoint <= 0x7F)
     {
-      chars[0] = (codepoint & 0x7F);
+      return std::string(1, static_cast<char>(codepoint)); // NOTE: #\null is a character like any other.
     }
     else if (codepoint <= 0x7FF)
     {
-- 
2.43.0


From 9df15678d8537319d2b959796f5dc1eccdfdb63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 52/69] fix: numeric prefixes combine, #e keeps decimals exact,
 and long tokens do not exhaust the stack

---
 include/meevax/kernel/number.hpp  |   2 +
 src/kernel/complex.cpp            |  56 +++++++---
 src/kernel/number.cpp             | 167 ++++++++++++++++++++++++++----
 src/kernel/ratio.cpp              |  18 +++-
 src/kernel/textual_input_port.cpp |  66 +++++-------
 5 files changed, 228 insertions(+), 81 deletions(-)

diff --git a/include/meevax/kernel/number.hpp b/include/meevax/kernel/number.hpp
index f504ae1..dfa19ca 100644
--- a/include/meevax/kernel/number.hpp
+++ b/include/meevax/kernel/number.hpp
@@ -308,6 +308,8 @@ inline namespace kernel
 
   auto make_real(std::string const&, int = 10) -> object;
 
+  auto make_exact(std::string const&, int = 10) -> object;
+
   auto make_complex(std::string const&, int = 10) -> object;
 
   auto make_number(std::string const&, int = 10) -> object;
diff --git a/src/kernel/complex.cpp b/src/kernel/complex.cpp
index 22e8df4..604c718 100644
--- a/src/kernel/complex.cpp
+++ b/src/kernel/complex.cpp
@@ -14,8 +14,6 @@
    limitations under the License.
 */
 
-#include <regex>
-
 #include <meevax/iostream/lexical_cast.hpp>
 #include <meevax/kernel/list.hpp>
 #include <meevax/kernel/number.hpp>
@@ -25,23 +23,55 @@ namespace meevax::inline kernel
 {
   complex::complex(std::string const& token, int radix)
   {
-    std::regex static const rectangular { R"(([+-]?.*)([+-].*)i)" };
-
-    std::regex static const polar { R"(([+-]?.*)@([+-]?.*))" };
+    /*
+       <complex R> = <real R> | <real R> @ <real R>
+                   | <real R>? [+-] <ureal R>? i | <real R>? <infnan> i
 
-    if (std::smatch result; std::regex_match(token, result, rectangular))
-    {
-      std::get<0>(*this) = make_real(result[1].length() == 0 ?                 "0" : result.str(1), radix);
-      std::get<1>(*this) = make_real(result[2].length() == 1 ? result.str(2) + "1" : result.str(2), radix);
-    }
-    else if (std::regex_match(token, result, polar))
+       The imaginary part may contain one more sign in its exponent.
+    */
+    if (auto const at = token.find('@'); at != std::string::npos)
     {
-      auto const magnitude = make_real(result.str(1), radix);
-      auto const angle     = make_real(result.str(2), radix);
+      auto const magnitude = make_real(token.substr(0, at ), radix);
+      auto const angle     = make_real(token.substr(at + 1), radix);
 
       std::get<0>(*this) = magnitude * number::cos(angle);
       std::get<1>(*this) = magnitude * number::sin(angle);
     }
+    else if (not token.empty() and (token.back() == 'i' or token.back() == 'I'))
+    {
+      auto const body = token.substr(0, token.size() - 1);
+
+      auto split = [&](std::string::size_type position)
+      {
+        auto const real = body.substr(0, position), imag = body.substr(position);
+
+        std::get<0>(*this) = make_real(real.empty()     ?        "0" : real, radix);
+        std::get<1>(*this) = make_real(imag.size() == 1 ? imag + "1" : imag, radix);
+      };
+
+      auto const last = body.find_last_of("+-");
+
+      if (last == std::string::npos)
+      {
+        throw std::invalid_argument("not a complex number");
+      }
+
+      try
+      {
+        split(last);
+      }
+      catch (std::invalid_argument const&)
+      {
+        if (auto const previous = last ? body.find_last_of("+-", last - 1) : std::string::npos; previous != std::string::npos)
+        {
+          split(previous);
+        }
+        else
+        {
+          throw;
+        }
+      }
+    }
     else
     {
       throw std::invalid_argument("not a complex number");
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 2652552..d50e691 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -14,6 +14,8 @@
    limitations under the License.
 */
 
+#include <algorithm>
+#include <cctype>
 #include <charconv>
 #include <compare>
 #include <meevax/kernel/error.hpp>
@@ -26,7 +28,7 @@
 #include <meevax/kernel/string.hpp>
 #include <cstring> // std::strpbrk
 #include <memory> // std::unique_ptr
-#include <regex>
+#include <optional>
 #include <string_view>
 #include <unordered_map>
 
@@ -451,6 +453,64 @@ namespace meevax::inline kernel
     }
   }
 
+  struct decimal // [+-]?(\d+\.?|\d*\.\d+)([DEFdef][+-]?\d+)?
+  {
+    std::string sign, integer_part, fractional_part, exponent;
+
+    char marker = '\0';
+
+    static auto parse(std::string const& literal) -> std::optional<decimal>
+    {
+      auto result = decimal();
+
+      auto iter = literal.begin();
+
+      auto take_sign = [&]()
+      {
+        return iter != literal.end() and (*iter == '+' or *iter == '-') ? std::string(1, *iter++) : std::string();
+      };
+
+      auto take_digits = [&]()
+      {
+        auto const begin = iter;
+        iter = std::find_if_not(iter, literal.end(), [](auto c) { return '0' <= c and c <= '9'; });
+        return std::string(begin, iter);
+      };
+
+      result.sign = take_sign();
+
+      result.integer_part = take_digits();
+
+      if (iter != literal.end() and *iter == '.')
+      {
+        ++iter;
+        result.fractional_part = take_digits();
+      }
+
+      if (result.integer_part.empty() and result.fractional_part.empty())
+      {
+        return std::nullopt;
+      }
+
+      if (iter != literal.end() and std::strchr("DEFdef", *iter))
+      {
+        result.marker = *iter++;
+        result.exponent = take_sign();
+
+        if (auto const digits = take_digits(); digits.empty())
+        {
+          return std::nullopt;
+        }
+        else
+        {
+          result.exponent += digits;
+        }
+      }
+
+      return iter == literal.end() ? std::make_optional(result) : std::nullopt;
+    }
+  };
+
   auto make_real(std::string const& literal, int radix) -> object
   {
     try
@@ -468,13 +528,15 @@ namespace meevax::inline kernel
         { "-nan.0", -std::numeric_limits<double>::quiet_NaN() },
       };
 
-      auto static const pattern = std::regex(R"([+-]?(?:\d+\.?|\d*\.\d+)(?:([DEFdef])[+-]?\d+)?)");
+      auto lowercased = literal;
+
+      std::transform(lowercased.begin(), lowercased.end(), lowercased.begin(), [](unsigned char c) { return std::tolower(c); });
 
-      if (auto iter = constants.find(literal); iter != constants.end())
+      if (auto iter = constants.find(lowercased); iter != constants.end())
       {
         return make<double>(iter->second);
       }
-      else if (auto result = std::smatch(); radix == 10 and std::regex_match(literal, result, pattern))
+      else if (auto const d = decimal::parse(literal); d and radix == 10)
       {
         /*
            R7RS 6.2.5. Syntax of numerical constants
@@ -489,27 +551,17 @@ namespace meevax::inline kernel
            double, but implementations may allow this default to be set by the
            user.
         */
-        assert(result.ready());
-        assert(result.size() == 2);
+        auto const normalized = d->sign + d->integer_part + "." + d->fractional_part + (d->marker ? "e" : "") + d->exponent;
 
-        if (result[1].matched)
+        switch (d->marker)
         {
-          assert(result[1].length() == 1);
-
-          switch (*result[1].first)
-          {
-          case 'D': case 'd':
-          case 'E': case 'e':
-          default:
-            return make<double>(std::strtod(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr)); // NOTE: std::stod throws on overflow and underflow.
+        case 'D': case 'd':
+        case 'E': case 'e':
+        default:
+          return make<double>(std::strtod(normalized.c_str(), nullptr)); // NOTE: std::stod throws on overflow and underflow.
 
-          case 'F': case 'f':
-            return make<float>(std::strtof(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
-          }
-        }
-        else
-        {
-          return make<double>(std::strtod(literal.c_str(), nullptr));
+        case 'F': case 'f':
+          return make<float>(std::strtof(normalized.c_str(), nullptr));
         }
       }
       else
@@ -519,6 +571,29 @@ namespace meevax::inline kernel
     }
   }
 
+  auto make_exact(std::string const& literal, int radix) -> object
+  {
+    if (auto const d = decimal::parse(literal); d and radix == 10)
+    {
+      try
+      {
+        auto const exponent = (d->marker ? std::stoi(d->exponent) : 0) - static_cast<int>(d->fractional_part.size());
+
+        let const significand = make_integer(d->sign + d->integer_part + d->fractional_part, radix);
+
+        return significand * number::pow(make<small_integer>(10), make<small_integer>(exponent));
+      }
+      catch (std::out_of_range const&)
+      {
+        throw std::invalid_argument("not a number");
+      }
+    }
+    else
+    {
+      return number::exact(make_complex(literal, radix));
+    }
+  }
+
   auto make_complex(std::string const& literal, int radix) -> object
   {
     try
@@ -533,14 +608,60 @@ namespace meevax::inline kernel
 
   auto make_number(std::string const& literal, int radix) -> object
   {
+    auto exactness = '\0', radix_specifier = '\0';
+
+    auto offset = std::string::size_type(0);
+
+    for (; offset + 1 < literal.size() and literal[offset] == '#'; offset += 2)
+    {
+      switch (auto const c = std::tolower(static_cast<unsigned char>(literal[offset + 1])); c)
+      {
+      case 'b': case 'd': case 'o': case 'x':
+        if (std::exchange(radix_specifier, c))
+        {
+          throw std::invalid_argument("not a number");
+        }
+
+        radix = c == 'b' ? 2 : c == 'o' ? 8 : c == 'd' ? 10 : 16;
+        break;
+
+      case 'e': case 'i':
+        if (std::exchange(exactness, c))
+        {
+          throw std::invalid_argument("not a number");
+        }
+
+        break;
+
+      default:
+        throw std::invalid_argument("not a number");
+      }
+    }
+
+    auto const body = literal.substr(offset);
+
     try
     {
-      return make_complex(literal, radix);
+      switch (exactness)
+      {
+      case 'e':
+        return make_exact(body, radix);
+
+      case 'i':
+        return number::inexact(make_complex(body, radix));
+
+      default:
+        return make_complex(body, radix);
+      }
     }
     catch (std::invalid_argument const&)
     {
       throw std::invalid_argument("not a number");
     }
+    catch (error const&) // e.g. #e+inf.0
+    {
+      throw std::invalid_argument("not a number");
+    }
   }
 
 namespace number
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index a34cc3b..23c011f 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -17,7 +17,7 @@
 #include <bit>
 #include <cmath>
 #include <limits>
-#include <regex>
+#include <string_view>
 
 #include <meevax/kernel/number.hpp>
 
@@ -95,9 +95,21 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    auto static const pattern = std::regex(R"([+-]?[0-9A-Za-z]+/[0-9A-Za-z]+)"); // NOTE: GMP also accepts white space anywhere and a signed denominator.
+    auto is_ratio = [](std::string_view token) // [+-]?[0-9A-Za-z]+/[0-9A-Za-z]+ (NOTE: GMP also accepts white space anywhere and a signed denominator.)
+    {
+      auto is_digits = [](std::string_view digits)
+      {
+        return not digits.empty() and digits.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz") == std::string_view::npos;
+      };
+
+      token.remove_prefix(token.starts_with('+') or token.starts_with('-'));
+
+      auto const slash = token.find('/');
+
+      return slash != std::string_view::npos and is_digits(token.substr(0, slash)) and is_digits(token.substr(slash + 1));
+    };
 
-    if (not std::regex_match(token, pattern))
+    if (not is_ratio(token))
     {
       throw std::invalid_argument("not a ratio");
     }
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 2912386..8bdde63 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -14,6 +14,8 @@
    limitations under the License.
 */
 
+#include <algorithm>
+#include <cctype>
 #include <unordered_set>
 
 #include <meevax/iostream/lexical_cast.hpp>
@@ -342,18 +344,6 @@ namespace meevax::inline kernel
     }
   }
 
-  auto textual_input_port::read_number() -> object
-  {
-    if (let const x = read_datum(); number::is_complex(x))
-    {
-      return x;
-    }
-    else
-    {
-      throw read_error(make<string>("a number is expected"), x);
-    }
-  }
-
   auto textual_input_port::read_unless_delimited() -> object
   {
     auto is_digit = [](auto c)
@@ -361,8 +351,10 @@ namespace meevax::inline kernel
       return '0' <= c and c <= '9';
     };
 
-    auto boolean = [](std::string const& token) -> object const&
+    auto boolean = [](std::string token) -> object const&
     {
+      std::transform(token.begin(), token.end(), token.begin(), [](unsigned char c) { return std::tolower(c); });
+
       if (token == "t" or token == "true")
       {
         return t;
@@ -491,28 +483,16 @@ namespace meevax::inline kernel
       }
     };
 
-    auto take_number = [&](int radix)
+    auto take_number = [&](character c) // #<radix or exactness><number>
     {
-      if (auto c1 = take_character(); c1 == '#')
-      {
-        switch (take_character())
-        {
-        case 'E':
-        case 'e':
-          return number::exact(make_number(take_token(take_character()), radix));
-
-        case 'I':
-        case 'i':
-          return number::inexact(make_number(take_token(take_character()), radix));
+      auto token = "#" + take_token(c);
 
-        default:
-          throw read_error(make<string>("unknown exactness"), unit);
-        }
-      }
-      else
+      if (peek_character() == '#')
       {
-        return make_number(take_token(c1), radix);
+        token += take_token(take_character());
       }
+
+      return make_number(token);
     };
 
     while (true)
@@ -550,14 +530,14 @@ namespace meevax::inline kernel
             take_character_until([](auto c) { return c == '\n'; });
           }
 
-          return read_unless_delimited();
+          continue;
 
         case ',': // SRFI 10
           return interaction_environment().as<environment>().evaluate(read_datum());
 
         case ';': // SRFI 62
           read_datum(); // Discard an expression.
-          return read_unless_delimited();
+          continue;
 
         case '"':
           return make_symbol(take_quoted(c2).utf8());
@@ -573,7 +553,7 @@ namespace meevax::inline kernel
         case '8':
         case '9':
           {
-            auto n = take_character_while(is_digit, c2);
+            auto n = take_character_while(is_digit, c2.utf8());
 
             switch (auto c = take_character())
             {
@@ -616,18 +596,18 @@ namespace meevax::inline kernel
 
         case 'B':
         case 'b':
-          return take_number(2);
+          return take_number(c2);
 
         case 'D':
         case 'd':
-          return take_number(10);
+          return take_number(c2);
 
         case 'E':
         case 'e':
-          return number::exact(read_number()); // NOTE: Same as #,(exact (read))
+          return take_number(c2);
 
         case 'f':
-          switch (std::stoi(take_character_while(is_digit, character('0'))))
+          switch (std::stoi(take_character_while(is_digit, "0")))
           {
           case 32:
             return read_homogeneous_vector.operator()<f32vector>();
@@ -641,11 +621,11 @@ namespace meevax::inline kernel
 
         case 'I':
         case 'i':
-          return number::inexact(read_number()); // NOTE: Same as #,(inexact (read))
+          return take_number(c2);
 
         case 'O':
         case 'o':
-          return take_number(8);
+          return take_number(c2);
 
         case 's':
           switch (auto n = take_character_while(is_digit); std::stoi(n))
@@ -667,6 +647,8 @@ namespace meevax::inline kernel
                              make<string>(lexical_cast(c1, c2, n)));
           }
 
+        case 'F':
+        case 'T':
         case 't':
           return boolean(take_token(c2));
 
@@ -692,7 +674,7 @@ namespace meevax::inline kernel
 
         case 'X':
         case 'x':
-          return take_number(16);
+          return take_number(c2);
 
         case '(':
           return make<vector>(read_elements(c2) | as_proper_list);
@@ -774,7 +756,7 @@ namespace meevax::inline kernel
             }
           }
 
-          return read_unless_delimited();
+          continue;
 
         default:
           throw read_error(make<string>("unknown discriminator"), make<character>(c2));
-- 
2.43.0


From 9f70996ac5d5351a00208f0f3084cb1e1073fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 53/69] fix: equal? terminates on circular vectors and eqv?
 tells exact from inexact complex numbers

---
 include/meevax/kernel/comparator.hpp |  5 +-
 src/kernel/comparator.cpp            | 72 ++++++++++++++++++++++++----
 2 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/include/meevax/kernel/comparator.hpp b/include/meevax/kernel/comparator.hpp
index c4e0183..f63bd8a 100644
--- a/include/meevax/kernel/comparator.hpp
+++ b/include/meevax/kernel/comparator.hpp
@@ -26,10 +26,7 @@ namespace meevax::inline kernel
     return x == y;
   };
 
-  inline auto eqv = [](auto const& x, auto const& y)
-  {
-    return eq(x, y) or x.eqv(y) or number::exact_integer_equals(x, y);
-  };
+  auto eqv(object const&, object const&) -> bool;
 
   auto equal(object const&, object const&) -> bool;
 } // namespace meevax::kernel
diff --git a/src/kernel/comparator.cpp b/src/kernel/comparator.cpp
index ec99334..c6992ee 100644
--- a/src/kernel/comparator.cpp
+++ b/src/kernel/comparator.cpp
@@ -16,10 +16,29 @@
 
 #include <meevax/kernel/box.hpp>
 #include <meevax/kernel/list.hpp>
+#include <meevax/kernel/vector.hpp>
 #include <unordered_map>
+#include <vector>
 
 namespace meevax::inline kernel
 {
+  auto eqv(object const& x, object const& y) -> bool
+  {
+    if (eq(x, y))
+    {
+      return true;
+    }
+    else if (x.is<complex>() and y.is<complex>())
+    {
+      return eqv(x.as<complex>().real(), y.as<complex>().real()) and
+             eqv(x.as<complex>().imag(), y.as<complex>().imag());
+    }
+    else
+    {
+      return x.eqv(y) or number::exact_integer_equals(x, y);
+    }
+  }
+
   auto find(object & b) -> object &
   {
     if (let & x = car(b); x.is<box>())
@@ -85,16 +104,53 @@ namespace meevax::inline kernel
   /*
      Efficient Nondestructive Equality Checking for Trees and Graphs
   */
-  auto equal(object const& x, object const& y, std::unordered_map<object, object> & forest) -> bool
-  {
-    return eqv(x, y) or (x.is<pair>() and
-                         y.is<pair>() and (union_find(x, y, forest) or (equal(car(x), car(y), forest) and
-                                                                        equal(cdr(x), cdr(y), forest))));
-  }
-
   auto equal(object const& x, object const& y) -> bool
   {
     auto forest = std::unordered_map<object, object>();
-    return equal(x, y, forest);
+
+    auto pending = std::vector<std::pair<object const*, object const*>> { { &x, &y } };
+
+    while (not pending.empty())
+    {
+      auto const [a, b] = pending.back();
+
+      pending.pop_back();
+
+      if (eq(*a, *b))
+      {
+        continue;
+      }
+      else if (a->is<pair>() and b->is<pair>())
+      {
+        if (not union_find(*a, *b, forest))
+        {
+          pending.emplace_back(&cdr(*a), &cdr(*b));
+          pending.emplace_back(&car(*a), &car(*b));
+        }
+      }
+      else if (a->is<vector>() and b->is<vector>())
+      {
+        auto const& v = a->as<vector>().objects;
+        auto const& u = b->as<vector>().objects;
+
+        if (v.size() != u.size())
+        {
+          return false;
+        }
+        else if (not union_find(*a, *b, forest))
+        {
+          for (auto i = v.size(); 0 < i--; )
+          {
+            pending.emplace_back(&v[i], &u[i]);
+          }
+        }
+      }
+      else if (not eqv(*a, *b))
+      {
+        return false;
+      }
+    }
+
+    return true;
   }
 } // namespace meevax::kernel
-- 
2.43.0


From 5e8aa9e61e6d46cd1b0ccf13f0be70833124ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 54/69] fix: imports share the exporting library's variables
 and definitions do not overwrite them

---
 .../meevax/kernel/syntactic_environment.hpp   |  2 ++
 src/kernel/environment.cpp                    |  6 ++---
 src/kernel/generator.cpp                      |  4 ++--
 src/kernel/library.cpp                        |  5 +++--
 src/kernel/syntactic_environment.cpp          | 22 +++++++++++++++++--
 5 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/meevax/kernel/syntactic_environment.hpp b/include/meevax/kernel/syntactic_environment.hpp
index 28f97e9..730cc9e 100644
--- a/include/meevax/kernel/syntactic_environment.hpp
+++ b/include/meevax/kernel/syntactic_environment.hpp
@@ -44,6 +44,8 @@ namespace meevax::inline kernel
 
     auto identify(object const& variable, object const& bound_variables) -> object;
 
+    auto identify_definition(object const& variable) -> object;
+
     auto static strip(object const& form) -> object;
 
     auto sweep(let const& form,
diff --git a/src/kernel/environment.cpp b/src/kernel/environment.cpp
index ff74765..ef780bb 100644
--- a/src/kernel/environment.cpp
+++ b/src/kernel/environment.cpp
@@ -109,8 +109,8 @@ namespace meevax::inline kernel
       auto prefix = [prefix = caddr(form)](let const& identity)
       {
         assert(identity.is<absolute>());
-        return make<absolute>(make_symbol(lexical_cast(prefix) +
-                                          lexical_cast(car(identity))),
+        return make<absolute>(make_symbol(prefix.as<symbol>().name +
+                                          syntactic_environment::strip(car(identity)).as<symbol>().name),
                               cdr(identity));
       };
 
@@ -177,7 +177,7 @@ namespace meevax::inline kernel
       {
         second = cons(x, second);
       }
-      else if (x != y)
+      else if (let const& z = cdr(x); not eq(y, z) and cdr(y) != cdr(z))
       {
         throw error(make<string>("in a program or library declaration, it is an error to import the same identifier more than once with different bindings"), x);
       }
diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 7ed7568..a720089 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -232,7 +232,7 @@ namespace meevax::inline kernel
     {
       return generator.generate(cdr(form) ? cadr(form) : unspecified,
                                 bound_variables,
-                                cons(make<instruction>(instruction::secd_store_absolute), generator.identify(car(form), bound_variables),
+                                cons(make<instruction>(instruction::secd_store_absolute), generator.identify_definition(car(form)),
                                      continuation));
     }
   }
@@ -241,7 +241,7 @@ namespace meevax::inline kernel
   {
     assert(car(form).is_also<identifier>());
 
-    let identity = generator.identify(car(form), unit);
+    let identity = generator.identify_definition(car(form));
 
     cdr(identity) = make<transformer>(environment().execute(generator.generate(cadr(form),
                                                                                bound_variables)),
diff --git a/src/kernel/library.cpp b/src/kernel/library.cpp
index 62dd53d..11b98be 100644
--- a/src/kernel/library.cpp
+++ b/src/kernel/library.cpp
@@ -90,12 +90,13 @@ namespace meevax::inline kernel
                    assert(cadr(export_spec).is_also<identifier>());
                    assert(caddr(export_spec).is_also<identifier>());
                    return make<absolute>(caddr(export_spec),
-                                         cdr(evaluator.identify(cadr(export_spec), unit)));
+                                         evaluator.identify(cadr(export_spec), unit));
                  }
                  else
                  {
                    assert(export_spec.is_also<identifier>());
-                   return evaluator.identify(export_spec, unit);
+                   return make<absolute>(export_spec,
+                                         evaluator.identify(export_spec, unit));
                  }
                },
                export_specs);
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index d52d184..267efff 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -41,7 +41,7 @@ namespace meevax::inline kernel
   {
     assert(variable.is_also<identifier>());
     assert(identify(variable, unit).template is<absolute>());
-    cdr(identify(variable, unit)) = value;
+    cdr(identify_definition(variable)) = value;
     return variable;
   }
 
@@ -178,7 +178,8 @@ namespace meevax::inline kernel
     }
     else
     {
-      return assq(variable, second);
+      let const& identity = assq(variable, second);
+      return identity.is<absolute>() and cdr(identity).is<absolute>() ? cdr(identity) : identity; // An imported identity is (<identifier> . <absolute>).
     }
   }
 
@@ -223,6 +224,23 @@ namespace meevax::inline kernel
     }
   }
 
+  auto syntactic_environment::identify_definition(object const& variable) -> object
+  {
+    if (variable.is<syntactic_closure>())
+    {
+      if (auto & environment = variable.as<syntactic_closure>().syntactic_environment.as<syntactic_environment>(); environment.first.is<null>())
+      {
+        return environment.identify_definition(variable.as<syntactic_closure>().form);
+      }
+    }
+    else if (let identity = assq(variable, second); identity.is<absolute>() and cdr(identity).is<absolute>()) // The definition shadows the imported one instead of overwriting the variable of the exporting library.
+    {
+      cdr(identity) = cddr(identity);
+    }
+
+    return identify(variable, unit);
+  }
+
   auto syntactic_environment::strip(object const& form) -> object
   {
     auto traverse = [](object const& form, auto&& visit) // Visit each datum in the form (which may be circular) once.
-- 
2.43.0


From 923e51a0be045ab9f72f2307febe033bd3b8d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 55/69] fix: a library's imports take effect before its body
 wherever they are declared

---
 src/kernel/library.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/kernel/library.cpp b/src/kernel/library.cpp
index 11b98be..8afe12f 100644
--- a/src/kernel/library.cpp
+++ b/src/kernel/library.cpp
@@ -20,6 +20,7 @@
 #include <meevax/kernel/library.hpp>
 #include <meevax/kernel/proper_list.hpp>
 #include <meevax/kernel/symbol.hpp>
+#include <vector>
 
 namespace meevax::inline kernel
 {
@@ -75,9 +76,40 @@ namespace meevax::inline kernel
     {
       assert(declarations.is<null>());
 
-      for (let const& unresolved_declaration : unresolved_declarations | as_proper_list)
+      auto body = std::vector<object>(); // The import declarations take effect before the body is evaluated, wherever they are written.
+
+      auto resolve = [&](let const& declarations, auto&& resolve) -> void
+      {
+        for (let const& declaration : declarations | as_proper_list)
+        {
+          if (declaration.is<pair>() and car(declaration).is<symbol>())
+          {
+            if (auto&& name = car(declaration).as<symbol>().name; name == "import")
+            {
+              evaluate(declaration);
+              continue;
+            }
+            else if (name == "include-library-declarations")
+            {
+              resolve(include(cdr(declaration)), resolve);
+              continue;
+            }
+            else if (name == "cond-expand")
+            {
+              resolve(conditional_expand(cdr(declaration)), resolve);
+              continue;
+            }
+          }
+
+          body.push_back(declaration);
+        }
+      };
+
+      resolve(unresolved_declarations, resolve);
+
+      for (let const& declaration : body)
       {
-        evaluate(unresolved_declaration);
+        evaluate(declaration);
       }
     }
 
-- 
2.43.0


From ff20186c493c29dd45db12f0fb8796ec5f646262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:44 +0000
Subject: [PATCH 56/69] fix: cond-expand and include work in bodies, in macros
 and with several files, and (scheme r5rs) binds interaction-environment

---
 library/r5rs.ss                      |  2 +-
 src/kernel/conditional_expand.cpp    |  3 ++-
 src/kernel/expander.cpp              |  4 ++--
 src/kernel/syntactic_environment.cpp | 15 +++++++++++++++
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/library/r5rs.ss b/library/r5rs.ss
index 5f5d594..0d60a30 100644
--- a/library/r5rs.ss
+++ b/library/r5rs.ss
@@ -1,7 +1,7 @@
 (define-library (scheme r5rs)
   (import (only (meevax continuation) dynamic-wind <values> values)
           (only (meevax core) define-syntax let-syntax letrec-syntax)
-          (only (meevax environment) environment eval)
+          (only (meevax environment) environment eval interaction-environment)
           (scheme r4rs)
           (srfi 149))
 
diff --git a/src/kernel/conditional_expand.cpp b/src/kernel/conditional_expand.cpp
index b55d2fb..951f265 100644
--- a/src/kernel/conditional_expand.cpp
+++ b/src/kernel/conditional_expand.cpp
@@ -20,6 +20,7 @@
 #include <meevax/kernel/conditional_expand.hpp>
 #include <meevax/kernel/library.hpp>
 #include <meevax/kernel/proper_list.hpp>
+#include <meevax/kernel/syntactic_environment.hpp>
 #include <meevax/kernel/system.hpp> // features
 
 namespace meevax::inline kernel
@@ -63,7 +64,7 @@ namespace meevax::inline kernel
       {
         throw error(make<string>("each clause of conditional-expand takes the form (<feature requirement> <expression> ...)"), clause);
       }
-      else if (conditional_expand_test(car(clause)))
+      else if (conditional_expand_test(syntactic_environment::strip(car(clause))))
       {
         return cdr(clause);
       }
diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index 7015fb4..5e0d019 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -157,7 +157,7 @@ namespace meevax::inline kernel
   EXPANDER(expander::include)
   {
     return expander.expand(cons(default_rename("begin"),
-                                meevax::include(cadr(form))),
+                                meevax::include(cdr(form))),
                            bound_variables,
                            alpha);
   }
@@ -165,7 +165,7 @@ namespace meevax::inline kernel
   EXPANDER(expander::include_case_insensitive)
   {
     return expander.expand(cons(default_rename("begin"),
-                                meevax::include<case_insensitive>(cadr(form))),
+                                meevax::include<case_insensitive>(cdr(form))),
                            bound_variables,
                            alpha);
   }
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 267efff..4028fa5 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -16,10 +16,12 @@
 
 #include <algorithm>
 #include <meevax/kernel/boolean.hpp>
+#include <meevax/kernel/conditional_expand.hpp>
 #include <meevax/kernel/environment.hpp>
 #include <meevax/kernel/expander.hpp>
 #include <meevax/kernel/generator.hpp>
 #include <meevax/kernel/identity.hpp>
+#include <meevax/kernel/include.hpp>
 #include <meevax/kernel/proper_list.hpp>
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/syntactic_environment.hpp>
@@ -398,6 +400,19 @@ namespace meevax::inline kernel
                            formals,
                            reversed_binding_specs);
             }
+            else if (name == "conditional-expand" or name == "include" or name == "include-case-insensitive")
+            {
+              return sweep(form,
+                           append(name == "conditional-expand" ? conditional_expand(cdar(sequence)) :
+                                  name == "include"            ? include(cdar(sequence))
+                                                               : include<case_insensitive>(cdar(sequence)),
+                                  cdr(sequence)),
+                           bound_variables,
+                           current_environment,
+                           alpha,
+                           formals,
+                           reversed_binding_specs);
+            }
             else if (name == "define") // <form> = ((define ...) <definition or expression>*)
             {
               if (cadar(sequence).is<pair>()) // <form> = ((define (<variable> . <formals>) <body>) <definition or expression>*)
-- 
2.43.0


From b7a829f108e505ea7e1fa30e890af001865535c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:30 +0000
Subject: [PATCH 57/69] fix: list primitives take lists of any length without
 exhausting the stack

---
 include/meevax/kernel/list.hpp |  32 ++++----
 src/kernel/list.cpp            | 140 +++++++++++++++------------------
 2 files changed, 79 insertions(+), 93 deletions(-)

diff --git a/include/meevax/kernel/list.hpp b/include/meevax/kernel/list.hpp
index 366532e..b8f783d 100644
--- a/include/meevax/kernel/list.hpp
+++ b/include/meevax/kernel/list.hpp
@@ -105,14 +105,16 @@ namespace meevax::inline kernel
 
   auto map(auto f, object const& xs, object const& ys = nullptr) -> object
   {
-    if (xs.is<pair>())
-    {
-      return cons(f(car(xs)), map(f, cdr(xs), ys));
-    }
-    else
+    let const reversed = reverse(xs);
+
+    let zs = ys;
+
+    for (let const* x = &reversed; x->is<pair>(); x = &cdr(*x))
     {
-      return ys;
+      zs = cons(f(car(*x)), zs);
     }
+
+    return zs;
   }
 
   auto memq(object const&, object const&) -> object const&;
@@ -129,21 +131,17 @@ namespace meevax::inline kernel
 
   auto filter(auto test, object const& xs) -> object
   {
-    if (xs.is<pair>())
+    let ys = unit;
+
+    for (let const* x = &xs; x->is<pair>(); x = &cdr(*x))
     {
-      if (test(car(xs)))
+      if (test(car(*x)))
       {
-        return cons(car(xs), filter(test, cdr(xs)));
+        ys = cons(car(*x), ys);
       }
-      else
-      {
-        return filter(test, cdr(xs));
-      }
-    }
-    else
-    {
-      return nullptr;
     }
+
+    return reverse(ys);
   }
 } // namespace meevax::kernel
 
diff --git a/src/kernel/list.cpp b/src/kernel/list.cpp
index 90f5abd..6724661 100644
--- a/src/kernel/list.cpp
+++ b/src/kernel/list.cpp
@@ -22,26 +22,26 @@ namespace meevax::inline kernel
 {
   auto make_list(std::size_t size, object const& x) -> object
   {
-    if (0 < size)
-    {
-      return cons(x, make_list(--size, x));
-    }
-    else
+    let xs = unit;
+
+    for (; 0 < size; --size)
     {
-      return nullptr;
+      xs = cons(x, xs);
     }
+
+    return xs;
   }
 
   auto iota(std::size_t count, object const& start, object const& step) -> object
   {
-    if (0 < count)
-    {
-      return cons(start, iota(count - 1, start + step, step));
-    }
-    else
+    let xs = unit;
+
+    for (let x = start; 0 < count; --count, x = x + step)
     {
-      return nullptr;
+      xs = cons(x, xs);
     }
+
+    return reverse(std::as_const(xs));
   }
 
   auto is_proper_list(object const& x0, object const& y0) -> bool
@@ -127,26 +127,28 @@ namespace meevax::inline kernel
 
   auto list_copy(object const& xs) -> object
   {
-    if (xs.is<pair>())
-    {
-      return cons(car(xs), list_copy(cdr(xs)));
-    }
-    else
+    let const* x = &xs;
+
+    let ys = unit;
+
+    for (; x->is<pair>(); x = &cdr(*x))
     {
-      return xs;
+      ys = cons(car(*x), ys);
     }
+
+    return append_reverse(std::as_const(ys), *x);
   }
 
   auto take(object const& x, std::size_t k) -> object
   {
-    if (0 < k)
-    {
-      return cons(car(x), take(cdr(x), k - 1));
-    }
-    else
+    let ys = unit;
+
+    for (let const* xs = &x; 0 < k; --k, xs = &cdr(*xs))
     {
-      return nullptr;
+      ys = cons(car(*xs), ys);
     }
+
+    return reverse(std::as_const(ys));
   }
 
   auto take(object & x, std::size_t k) -> object
@@ -205,14 +207,14 @@ namespace meevax::inline kernel
 
   auto drop_right(object const& x, object const& y) -> object
   {
-    if (y.is<pair>())
-    {
-      return cons(car(x), drop_right(cdr(x), cdr(y)));
-    }
-    else
+    let zs = unit;
+
+    for (let const* xs = &x, * ys = &y; ys->is<pair>(); xs = &cdr(*xs), ys = &cdr(*ys))
     {
-      return nullptr;
+      zs = cons(car(*xs), zs);
     }
+
+    return reverse(std::as_const(zs));
   }
 
   auto drop_right(object const& x, std::size_t k) -> object
@@ -222,14 +224,14 @@ namespace meevax::inline kernel
 
   auto drop_right(object & x, object const& y) -> void
   {
-    if (y.is<pair>())
-    {
-      drop_right(cdr(x), cdr(y));
-    }
-    else
+    auto xs = &x;
+
+    for (let const* ys = &y; ys->is<pair>(); ys = &cdr(*ys))
     {
-      cdr(x) = nullptr;
+      xs = &cdr(*xs);
     }
+
+    cdr(*xs) = nullptr;
   }
 
   auto drop_right(object & x, std::size_t k) -> object
@@ -252,14 +254,14 @@ namespace meevax::inline kernel
 
   auto append(object const& x, object const& y) -> object
   {
-    if (x.is<pair>())
-    {
-      return cons(car(x), append(cdr(x), y));
-    }
-    else
+    let zs = unit;
+
+    for (let const* xs = &x; xs->is<pair>(); xs = &cdr(*xs))
     {
-      return y;
+      zs = cons(car(*xs), zs);
     }
+
+    return append_reverse(std::as_const(zs), y);
   }
 
   auto append(object & x, object const& y) -> object &
@@ -281,60 +283,46 @@ namespace meevax::inline kernel
 
   auto append_reverse(object const& x, object const& y) -> object
   {
-    if (x.is<null>())
-    {
-      return y;
-    }
-    else
+    let zs = y;
+
+    for (let const* xs = &x; not xs->is<null>(); xs = &cdr(*xs))
     {
-      return append_reverse(cdr(x), cons(car(x), y));
+      zs = cons(car(*xs), zs);
     }
+
+    return zs;
   }
 
   auto append_reverse(object & x, object const& y) -> object
   {
-    if (x.is<null>())
-    {
-      return y;
-    }
-    else
-    {
-      return append_reverse(std::exchange(cdr(x), y), x);
-    }
-  }
+    let zs = y;
 
-  auto reverse(object const& xs, object const& a) -> object
-  {
-    if (xs.is<pair>())
+    while (not x.is<null>())
     {
-      return reverse(cdr(xs), cons(car(xs), a));
-    }
-    else
-    {
-      return a;
+      let const xs = cdr(x);
+      cdr(x) = zs;
+      zs = x;
+      x = xs;
     }
+
+    return zs;
   }
 
   auto reverse(object const& xs) -> object
   {
-    return reverse(xs, nullptr);
-  }
+    let ys = unit;
 
-  auto reverse(object & xs, object const& a) -> object
-  {
-    if (xs.is<null>())
+    for (let const* x = &xs; x->is<pair>(); x = &cdr(*x))
     {
-      return a;
-    }
-    else
-    {
-      return reverse(std::exchange(cdr(xs), a), xs);
+      ys = cons(car(*x), ys);
     }
+
+    return ys;
   }
 
   auto reverse(object & xs) -> object
   {
-    return reverse(xs, nullptr);
+    return append_reverse(xs, unit);
   }
 
   auto memq(object const& x, object const& xs) -> object const&
-- 
2.43.0


From c24a65de3c15c99699b3c622a32b9fdb45b64f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:10 +0000
Subject: [PATCH 58/69] fix: apply passes a copy of its list, so that the
 callee does not share it

---
 library/meevax.ss | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index c9d1d64..897d607 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -106,19 +106,21 @@
 
 (define-library (meevax apply)
   (import (only (meevax core) define if lambda)
-          (only (meevax list) append null? reverse)
+          (only (meevax list) append list-copy null? reverse)
           (only (meevax pair) car cdr cons))
 
   (export apply)
 
   (begin (define (apply f x . xs)
            (if (null? xs)
-               (f . x)
+               ((lambda (x)
+                  (f . x))
+                (list-copy x))
                ((lambda (xs)
                   ((lambda (x)
                      (f . x))
                    (append (reverse (cdr xs))
-                           (car xs))))
+                           (list-copy (car xs)))))
                 (reverse (cons x xs)))))))
 
 (define-library (meevax map)
-- 
2.43.0


From 310741241a3d5db09bbe301bb25e825de95332a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:22 +0000
Subject: [PATCH 59/69] fix: a file given by a relative path resolves its
 includes next to itself

---
 include/meevax/kernel/input_file_port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/meevax/kernel/input_file_port.hpp b/include/meevax/kernel/input_file_port.hpp
index d358b6e..434cee3 100644
--- a/include/meevax/kernel/input_file_port.hpp
+++ b/include/meevax/kernel/input_file_port.hpp
@@ -33,7 +33,7 @@ namespace meevax::inline kernel
       : name     { std::filesystem::canonical(name) }
       , ifstream { name, std::forward<decltype(xs)>(xs)... }
     {
-      textual_context::paths.emplace(name);
+      textual_context::paths.emplace(this->name);
     }
 
     auto close() -> void override;
-- 
2.43.0


From 5abc3c96fc4d1b8e0bf0bbe01ebc6b1c07021daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:18 +0000
Subject: [PATCH 60/69] fix: load without an environment argument evaluates in
 the interaction environment

---
 library/r4rs.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/r4rs.ss b/library/r4rs.ss
index f607d3e..79600d7 100644
--- a/library/r4rs.ss
+++ b/library/r4rs.ss
@@ -53,7 +53,7 @@
           (only (meevax vector) vector? make-vector vector vector-length vector-ref vector-set! vector->list list->vector vector-fill!)
           (prefix (meevax read) %)
           (prefix (meevax write) %)
-          (prefix (only (meevax environment) load) %)
+          (prefix (only (meevax environment) interaction-environment load) %)
           (only (srfi 39) make-parameter parameterize)
           (only (srfi 45) delay force))
 
-- 
2.43.0


From 26634d991ed3f426137aa56a94e71054a13d9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 61/69] fix: ports report the end of input and deliver what
 remains before it

---
 .../meevax/kernel/input_homogeneous_vector_port.hpp   |  4 +++-
 library/r7rs.ss                                       |  3 ++-
 src/kernel/binary_input_file_port.cpp                 | 11 +++++++----
 src/kernel/boot.cpp                                   |  2 +-
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/meevax/kernel/input_homogeneous_vector_port.hpp b/include/meevax/kernel/input_homogeneous_vector_port.hpp
index e3e86e7..0c14e9c 100644
--- a/include/meevax/kernel/input_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/input_homogeneous_vector_port.hpp
@@ -17,6 +17,7 @@
 #ifndef INCLUDED_MEEVAX_KERNEL_INPUT_HOMOGENEOUS_VECTOR_PORT_HPP
 #define INCLUDED_MEEVAX_KERNEL_INPUT_HOMOGENEOUS_VECTOR_PORT_HPP
 
+#include <algorithm>
 #include <deque>
 
 #include <meevax/kernel/binary_input_port.hpp>
@@ -53,12 +54,13 @@ namespace meevax::inline kernel
 
     auto get(std::size_t size) -> object override
     {
-      if (deque.size() < size)
+      if (size != 0 and deque.empty())
       {
         return eof_object;
       }
       else
       {
+        size = std::min(size, deque.size());
         let const v =  make<homogeneous_vector<T>>(size);
         std::copy(deque.begin(), std::next(deque.begin(), size), std::begin(v.as<homogeneous_vector<T>>().values));
         deque.erase(deque.begin(), std::next(deque.begin(), size));
diff --git a/library/r7rs.ss b/library/r7rs.ss
index 209a5bf..4a51f30 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -311,7 +311,8 @@
                                           (current-input-port)))))
              (if (eof-object? v)
                  (eof-object)
-                 (bytevector-copy! x start v))))
+                 (begin (bytevector-copy! x start v)
+                        (bytevector-length v)))))
 
          (define (write-char x . xs)
            (%put-char x (if (pair? xs)
diff --git a/src/kernel/binary_input_file_port.cpp b/src/kernel/binary_input_file_port.cpp
index de8c9e5..157f523 100644
--- a/src/kernel/binary_input_file_port.cpp
+++ b/src/kernel/binary_input_file_port.cpp
@@ -48,23 +48,26 @@ namespace meevax::inline kernel
     {
       return make<u8vector>(buffer.data(), buffer.size());
     }
+    else if (buffer.resize(ifstream.gcount()); buffer.empty())
+    {
+      return eof_object;
+    }
     else
     {
-      buffer.resize(ifstream.gcount());
       return make<u8vector>(buffer.data(), buffer.size());
     }
   }
 
   auto binary_input_file_port::get_ready() const -> bool
   {
-    return static_cast<bool>(ifstream);
+    return ifstream.good() or ifstream.eof();
   }
 
   auto binary_input_file_port::peek() -> object
   {
-    if (get_ready())
+    if (auto const c = ifstream.peek(); c != std::ifstream::traits_type::eof())
     {
-      return make<small_integer>(ifstream.peek());
+      return make<small_integer>(c);
     }
     else
     {
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 011be7d..5bdb78a 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -335,7 +335,7 @@ namespace meevax::inline kernel
       { "procedure",                     [](let const& xs) { return make<procedure>(car(xs).as<string>().utf8(), cadr(xs).as<symbol>().name.c_str()); } },
 
       { "get-char",                      [](let const& xs) { return car(xs).as<textual_input_port>().get(); } },
-      { "get-char-ready?",               [](let const& xs) { return make<bool>(car(xs).as<textual_input_port>().get_ready()); } },
+      { "get-char-ready?",               [](let const& xs) { return make<bool>(car(xs).as<textual_input_port>().get_ready() or car(xs).as<textual_input_port>().at_end_of_file()); } },
       { "get-line",                      [](let const& xs) { return car(xs).as<textual_input_port>().get_line(); } },
       { "peek-char",                     [](let const& xs) { return car(xs).as<textual_input_port>().peek(); } },
       { "read",                          [](let const& xs) { return car(xs).as<textual_input_port>().read(); } },
-- 
2.43.0


From 347510595c4e2660d788ba978159fedc356aa861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 62/69] fix: read-line ends lines at a carriage return as well

---
 src/kernel/textual_input_port.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 8bdde63..5770d44 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -197,7 +197,24 @@ namespace meevax::inline kernel
     }
     else
     {
-      return make<string>(take_character_until([](auto c) { return c == '\n' or character::is_eof(c); }));
+      let s = make<string>();
+
+      for (auto c = take_character(); c != '\n' and not c.is_eof(); c = take_character())
+      {
+        if (c == '\r') // NOTE: either a carriage return or a carriage return followed by a linefeed is an end of line.
+        {
+          if (peek_character() == '\n')
+          {
+            take_character();
+          }
+
+          break;
+        }
+
+        s.as<string>().characters.push_back(c);
+      }
+
+      return s;
     }
   }
 
-- 
2.43.0


From ce45aab40548cf501ba802652629c30ae97d77ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:33 +0000
Subject: [PATCH 63/69] fix: failing to open a file signals a file error

---
 include/meevax/kernel/binary_input_file_port.hpp | 16 ++++++++++++++--
 .../meevax/kernel/binary_output_file_port.hpp    |  9 ++++++++-
 include/meevax/kernel/input_file_port.hpp        | 14 +++++++++++++-
 include/meevax/kernel/output_file_port.hpp       | 10 +++++++++-
 4 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/include/meevax/kernel/binary_input_file_port.hpp b/include/meevax/kernel/binary_input_file_port.hpp
index 27d650f..4cf0775 100644
--- a/include/meevax/kernel/binary_input_file_port.hpp
+++ b/include/meevax/kernel/binary_input_file_port.hpp
@@ -21,6 +21,9 @@
 #include <fstream>
 
 #include <meevax/kernel/binary_input_port.hpp>
+#include <meevax/kernel/collector.hpp>
+#include <meevax/kernel/error.hpp>
+#include <meevax/kernel/string.hpp>
 
 namespace meevax::inline kernel
 {
@@ -30,10 +33,19 @@ namespace meevax::inline kernel
 
     std::ifstream ifstream;
 
-    explicit binary_input_file_port(std::filesystem::path const& name, auto&&... xs)
+    explicit binary_input_file_port(std::filesystem::path const& name, auto&&... xs) try
       : name     { std::filesystem::canonical(name) }
       , ifstream { name, (std::ios::binary | ... | std::forward<decltype(xs)>(xs)) }
-    {}
+    {
+      if (not ifstream.is_open())
+      {
+        throw file_error(make<string>("failed to open file"), make<string>(name));
+      }
+    }
+    catch (std::filesystem::filesystem_error const& e)
+    {
+      throw file_error(make<string>(e.what()), make<string>(name));
+    }
 
     auto close() -> void override;
 
diff --git a/include/meevax/kernel/binary_output_file_port.hpp b/include/meevax/kernel/binary_output_file_port.hpp
index ccedfdb..c728610 100644
--- a/include/meevax/kernel/binary_output_file_port.hpp
+++ b/include/meevax/kernel/binary_output_file_port.hpp
@@ -20,6 +20,8 @@
 #include <fstream>
 
 #include <meevax/kernel/binary_output_port.hpp>
+#include <meevax/kernel/collector.hpp>
+#include <meevax/kernel/error.hpp>
 #include <meevax/kernel/string.hpp>
 
 namespace meevax::inline kernel
@@ -33,7 +35,12 @@ namespace meevax::inline kernel
     explicit binary_output_file_port(auto&& x, auto&&... xs)
       : name { std::forward<decltype(x)>(x) }
       , ofstream { name.utf8(), (std::ios::binary | ... | std::forward<decltype(xs)>(xs)) }
-    {}
+    {
+      if (not ofstream.is_open())
+      {
+        throw file_error(make<string>("failed to open file"), make<string>(name));
+      }
+    }
 
     auto close() -> void override;
 
diff --git a/include/meevax/kernel/input_file_port.hpp b/include/meevax/kernel/input_file_port.hpp
index 434cee3..ed267fa 100644
--- a/include/meevax/kernel/input_file_port.hpp
+++ b/include/meevax/kernel/input_file_port.hpp
@@ -19,6 +19,9 @@
 
 #include <fstream>
 
+#include <meevax/kernel/collector.hpp>
+#include <meevax/kernel/error.hpp>
+#include <meevax/kernel/string.hpp>
 #include <meevax/kernel/textual_input_port.hpp>
 
 namespace meevax::inline kernel
@@ -29,12 +32,21 @@ namespace meevax::inline kernel
 
     std::ifstream ifstream;
 
-    explicit input_file_port(std::filesystem::path const& name, auto&&... xs)
+    explicit input_file_port(std::filesystem::path const& name, auto&&... xs) try
       : name     { std::filesystem::canonical(name) }
       , ifstream { name, std::forward<decltype(xs)>(xs)... }
     {
+      if (not ifstream.is_open())
+      {
+        throw file_error(make<string>("failed to open file"), make<string>(name));
+      }
+
       textual_context::paths.emplace(this->name);
     }
+    catch (std::filesystem::filesystem_error const& e)
+    {
+      throw file_error(make<string>(e.what()), make<string>(name));
+    }
 
     auto close() -> void override;
 
diff --git a/include/meevax/kernel/output_file_port.hpp b/include/meevax/kernel/output_file_port.hpp
index 0f3c485..fbf2425 100644
--- a/include/meevax/kernel/output_file_port.hpp
+++ b/include/meevax/kernel/output_file_port.hpp
@@ -19,6 +19,9 @@
 
 #include <fstream>
 
+#include <meevax/kernel/collector.hpp>
+#include <meevax/kernel/error.hpp>
+#include <meevax/kernel/string.hpp>
 #include <meevax/kernel/textual_output_port.hpp>
 
 namespace meevax::inline kernel
@@ -32,7 +35,12 @@ namespace meevax::inline kernel
     explicit output_file_port(auto&& x, auto&&... xs)
       : name { std::forward<decltype(x)>(x) }
       , ofstream { name.utf8(), std::forward<decltype(xs)>(xs)... }
-    {}
+    {
+      if (not ofstream.is_open())
+      {
+        throw file_error(make<string>("failed to open file"), make<string>(name));
+      }
+    }
 
     auto close() -> void override;
 
-- 
2.43.0


From d00e0c5354d92c60ce469fc684f38b12be8e158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:33 +0000
Subject: [PATCH 64/69] fix: string and bytevector ports know that they are
 closed

---
 include/meevax/kernel/input_homogeneous_vector_port.hpp  | 8 ++++++--
 include/meevax/kernel/input_string_port.hpp              | 2 ++
 include/meevax/kernel/output_homogeneous_vector_port.hpp | 8 ++++++--
 include/meevax/kernel/output_string_port.hpp             | 2 ++
 src/kernel/input_string_port.cpp                         | 6 ++++--
 src/kernel/output_string_port.cpp                        | 6 ++++--
 6 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/meevax/kernel/input_homogeneous_vector_port.hpp b/include/meevax/kernel/input_homogeneous_vector_port.hpp
index 0c14e9c..1ebf281 100644
--- a/include/meevax/kernel/input_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/input_homogeneous_vector_port.hpp
@@ -31,12 +31,16 @@ namespace meevax::inline kernel
   {
     std::deque<T> deque;
 
+    bool opened = true;
+
     explicit input_homogeneous_vector_port(homogeneous_vector<T> const& v)
       : deque(std::begin(v.values), std::end(v.values))
     {}
 
     auto close() -> void override
-    {}
+    {
+      opened = false;
+    }
 
     auto get() -> object override
     {
@@ -75,7 +79,7 @@ namespace meevax::inline kernel
 
     auto is_open() const -> bool override
     {
-      return true;
+      return opened;
     }
 
     auto peek() -> object override
diff --git a/include/meevax/kernel/input_string_port.hpp b/include/meevax/kernel/input_string_port.hpp
index 6ae4486..0af9b31 100644
--- a/include/meevax/kernel/input_string_port.hpp
+++ b/include/meevax/kernel/input_string_port.hpp
@@ -26,6 +26,8 @@ namespace meevax::inline kernel
   {
     std::istringstream istringstream;
 
+    bool opened = true;
+
     explicit input_string_port(auto&&... xs)
       : istringstream { std::forward<decltype(xs)>(xs)... }
     {}
diff --git a/include/meevax/kernel/output_homogeneous_vector_port.hpp b/include/meevax/kernel/output_homogeneous_vector_port.hpp
index 02d4fd4..2d4c05b 100644
--- a/include/meevax/kernel/output_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/output_homogeneous_vector_port.hpp
@@ -27,17 +27,21 @@ namespace meevax::inline kernel
   {
     std::vector<T> vector;
 
+    bool opened = true;
+
     output_homogeneous_vector_port() = default;
 
     auto close() -> void override
-    {}
+    {
+      opened = false;
+    }
 
     auto flush() -> void override
     {}
 
     auto is_open() const -> bool override
     {
-      return true;
+      return opened;
     }
 
     auto put(std::uint8_t x) -> void override
diff --git a/include/meevax/kernel/output_string_port.hpp b/include/meevax/kernel/output_string_port.hpp
index dd8223b..5763107 100644
--- a/include/meevax/kernel/output_string_port.hpp
+++ b/include/meevax/kernel/output_string_port.hpp
@@ -26,6 +26,8 @@ namespace meevax::inline kernel
   {
     std::ostringstream ostringstream;
 
+    bool opened = true;
+
     explicit output_string_port(auto&&... xs)
       : ostringstream { std::forward<decltype(xs)>(xs)... }
     {}
diff --git a/src/kernel/input_string_port.cpp b/src/kernel/input_string_port.cpp
index 8ada4da..2b28b71 100644
--- a/src/kernel/input_string_port.cpp
+++ b/src/kernel/input_string_port.cpp
@@ -20,11 +20,13 @@
 namespace meevax::inline kernel
 {
   auto input_string_port::close() -> void
-  {}
+  {
+    opened = false;
+  }
 
   auto input_string_port::is_open() const -> bool
   {
-    return true;
+    return opened;
   }
 
   auto input_string_port::istream() -> std::istream &
diff --git a/src/kernel/output_string_port.cpp b/src/kernel/output_string_port.cpp
index 47b9480..55d162d 100644
--- a/src/kernel/output_string_port.cpp
+++ b/src/kernel/output_string_port.cpp
@@ -20,11 +20,13 @@
 namespace meevax::inline kernel
 {
   auto output_string_port::close() -> void
-  {}
+  {
+    opened = false;
+  }
 
   auto output_string_port::is_open() const -> bool
   {
-    return true;
+    return opened;
   }
 
   output_string_port::operator std::ostream &()
-- 
2.43.0


From b94be33a25553b753326136d758022715036bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 65/69] fix: characters inside the ranges of the Unicode data
 have the property of the range

---
 include/meevax/kernel/character.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index f5f5bec..29863af 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -81,7 +81,26 @@ namespace meevax::inline kernel
         {
         #include <meevax/unicode/property.hpp>
 
-        default:
+        default: // NOTE: UnicodeData.txt lists only the first and the last of the code points of a range.
+          if (0x3400 <= codepoint and codepoint <= 0x4DBF) return Lo; // CJK Ideograph Extension A
+          if (0x4E00 <= codepoint and codepoint <= 0x9FFF) return Lo; // CJK Ideograph
+          if (0xAC00 <= codepoint and codepoint <= 0xD7A3) return Lo; // Hangul Syllable
+          if (0xD800 <= codepoint and codepoint <= 0xDB7F) return Cs; // Non Private Use High Surrogate
+          if (0xDB80 <= codepoint and codepoint <= 0xDBFF) return Cs; // Private Use High Surrogate
+          if (0xDC00 <= codepoint and codepoint <= 0xDFFF) return Cs; // Low Surrogate
+          if (0xE000 <= codepoint and codepoint <= 0xF8FF) return Co; // Private Use
+          if (0x17000 <= codepoint and codepoint <= 0x187F7) return Lo; // Tangut Ideograph
+          if (0x18D00 <= codepoint and codepoint <= 0x18D08) return Lo; // Tangut Ideograph Supplement
+          if (0x20000 <= codepoint and codepoint <= 0x2A6DF) return Lo; // CJK Ideograph Extension B
+          if (0x2A700 <= codepoint and codepoint <= 0x2B739) return Lo; // CJK Ideograph Extension C
+          if (0x2B740 <= codepoint and codepoint <= 0x2B81D) return Lo; // CJK Ideograph Extension D
+          if (0x2B820 <= codepoint and codepoint <= 0x2CEA1) return Lo; // CJK Ideograph Extension E
+          if (0x2CEB0 <= codepoint and codepoint <= 0x2EBE0) return Lo; // CJK Ideograph Extension F
+          if (0x2EBF0 <= codepoint and codepoint <= 0x2EE5D) return Lo; // CJK Ideograph Extension I
+          if (0x30000 <= codepoint and codepoint <= 0x3134A) return Lo; // CJK Ideograph Extension G
+          if (0x31350 <= codepoint and codepoint <= 0x323AF) return Lo; // CJK Ideograph Extension H
+          if (0xF0000 <= codepoint and codepoint <= 0xFFFFD) return Co; // Plane 15 Private Use
+          if (0x100000 <= codepoint and codepoint <= 0x10FFFD) return Co; // Plane 16 Private Use
           return Cn;
         }
       }
-- 
2.43.0


From 3381a03272590abd665fc220e9848571d92f57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 66/69] fix: char-whitespace? knows the white space that is not
 a space separator

---
 include/meevax/kernel/character.hpp | 10 +++++-----
 src/kernel/boot.cpp                 |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index 29863af..c2ca643 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -129,11 +129,6 @@ namespace meevax::inline kernel
       {
         return value == Lu;
       }
-
-      constexpr auto is_whitespace() const noexcept
-      {
-        return value == Zs;
-      }
     };
 
     character() = default;
@@ -194,6 +189,11 @@ namespace meevax::inline kernel
       return is_eof(codepoint);
     }
 
+    auto constexpr is_whitespace() const noexcept
+    {
+      return (0x09 <= codepoint and codepoint <= 0x0D) or codepoint == 0x85 or property().is_any_of(property_code::Zl, property_code::Zp, property_code::Zs);
+    }
+
     auto constexpr property() const noexcept -> property_code
     {
       return codepoint;
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 5bdb78a..f0edf7f 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       { "char-ci>=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() >= b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
       { "char-alphabetic?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_letter()); } },
       { "char-numeric?",                 [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_numeric()); } },
-      { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_whitespace()); } },
+      { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_whitespace()); } },
       { "char-upper-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_upper_case()); } },
       { "char-lower-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_lower_case()); } },
       { "digit-value",                   [](let const& xs) { if (auto digit_value = car(xs).as<character>().digit_value(); digit_value) { return make<small_integer>(*digit_value); } else { return f; } } },
-- 
2.43.0


From 3c4d2367f191422483cb7d4d0afe5ff30ee8eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 67/69] fix: digit-value is false of characters that are not
 char-numeric?

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index f0edf7f..145b70c 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -103,7 +103,7 @@ namespace meevax::inline kernel
       { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_whitespace()); } },
       { "char-upper-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_upper_case()); } },
       { "char-lower-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_lower_case()); } },
-      { "digit-value",                   [](let const& xs) { if (auto digit_value = car(xs).as<character>().digit_value(); digit_value) { return make<small_integer>(*digit_value); } else { return f; } } },
+      { "digit-value",                   [](let const& xs) { if (auto digit_value = car(xs).as<character>().digit_value(); digit_value and car(xs).as<character>().property().is_numeric()) { return make<small_integer>(*digit_value); } else { return f; } } },
       { "char->integer",                 [](let const& xs) { return make<small_integer>(car(xs).as<character>().codepoint); } },
       { "integer->char",                 [](let const& xs) { return make<character>(exact_integer_cast<character::int_type>(car(xs))); } },
       { "char-upcase",                   [](let const& xs) { return make<character>(car(xs).as<character>().upcase()); } },
-- 
2.43.0


From 1515c74b9a0b4a963e9e87b75dae10b3088efc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 68/69] fix: char-alphabetic?, char-upper-case? and
 char-lower-case? follow the derived properties

---
 include/meevax/kernel/character.hpp |   6 ++
 src/kernel/boot.cpp                 |   6 +-
 src/kernel/character.cpp            | 108 ++++++++++++++++++++++++++++
 3 files changed, 117 insertions(+), 3 deletions(-)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index c2ca643..6bcac04 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -189,6 +189,12 @@ namespace meevax::inline kernel
       return is_eof(codepoint);
     }
 
+    auto is_alphabetic() const noexcept -> bool;
+
+    auto is_lower_case() const noexcept -> bool;
+
+    auto is_upper_case() const noexcept -> bool;
+
     auto constexpr is_whitespace() const noexcept
     {
       return (0x09 <= codepoint and codepoint <= 0x0D) or codepoint == 0x85 or property().is_any_of(property_code::Zl, property_code::Zp, property_code::Zs);
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 145b70c..8653d97 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -98,11 +98,11 @@ namespace meevax::inline kernel
       { "char-ci<=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() <= b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
       { "char-ci>?",                     [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() >  b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
       { "char-ci>=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() >= b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
-      { "char-alphabetic?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_letter()); } },
+      { "char-alphabetic?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_alphabetic()); } },
       { "char-numeric?",                 [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_numeric()); } },
       { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_whitespace()); } },
-      { "char-upper-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_upper_case()); } },
-      { "char-lower-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_lower_case()); } },
+      { "char-upper-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_upper_case()); } },
+      { "char-lower-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_lower_case()); } },
       { "digit-value",                   [](let const& xs) { if (auto digit_value = car(xs).as<character>().digit_value(); digit_value and car(xs).as<character>().property().is_numeric()) { return make<small_integer>(*digit_value); } else { return f; } } },
       { "char->integer",                 [](let const& xs) { return make<small_integer>(car(xs).as<character>().codepoint); } },
       { "integer->char",                 [](let const& xs) { return make<character>(exact_integer_cast<character::int_type>(car(xs))); } },
diff --git a/src/kernel/character.cpp b/src/kernel/character.cpp
index 1ccf119..1e0d416 100644
--- a/src/kernel/character.cpp
+++ b/src/kernel/character.cpp
@@ -14,6 +14,7 @@
    limitations under the License.
 */
 
+#include <algorithm>
 #include <array>
 #include <meevax/kernel/boolean.hpp>
 #include <meevax/kernel/eof.hpp>
@@ -22,6 +23,113 @@
 
 namespace meevax::inline kernel
 {
+  namespace
+  {
+    /*
+       The code points whose derived core property (Unicode 15.0) does not
+       follow from their general category.
+    */
+    auto constexpr other_alphabetic = std::array<std::pair<character::int_type, character::int_type>, 240> {{
+      { 0x0345, 0x0345 }, { 0x05B0, 0x05BD }, { 0x05BF, 0x05BF }, { 0x05C1, 0x05C2 },
+      { 0x05C4, 0x05C5 }, { 0x05C7, 0x05C7 }, { 0x0610, 0x061A }, { 0x064B, 0x0657 },
+      { 0x0659, 0x065F }, { 0x0670, 0x0670 }, { 0x06D6, 0x06DC }, { 0x06E1, 0x06E4 },
+      { 0x06E7, 0x06E8 }, { 0x06ED, 0x06ED }, { 0x0711, 0x0711 }, { 0x0730, 0x073F },
+      { 0x07A6, 0x07B0 }, { 0x0816, 0x0817 }, { 0x081B, 0x0823 }, { 0x0825, 0x0827 },
+      { 0x0829, 0x082C }, { 0x08D4, 0x08DF }, { 0x08E3, 0x08E9 }, { 0x08F0, 0x0903 },
+      { 0x093A, 0x093B }, { 0x093E, 0x094C }, { 0x094E, 0x094F }, { 0x0955, 0x0957 },
+      { 0x0962, 0x0963 }, { 0x0981, 0x0983 }, { 0x09BE, 0x09C4 }, { 0x09C7, 0x09C8 },
+      { 0x09CB, 0x09CC }, { 0x09D7, 0x09D7 }, { 0x09E2, 0x09E3 }, { 0x0A01, 0x0A03 },
+      { 0x0A3E, 0x0A42 }, { 0x0A47, 0x0A48 }, { 0x0A4B, 0x0A4C }, { 0x0A51, 0x0A51 },
+      { 0x0A70, 0x0A71 }, { 0x0A75, 0x0A75 }, { 0x0A81, 0x0A83 }, { 0x0ABE, 0x0AC5 },
+      { 0x0AC7, 0x0AC9 }, { 0x0ACB, 0x0ACC }, { 0x0AE2, 0x0AE3 }, { 0x0AFA, 0x0AFC },
+      { 0x0B01, 0x0B03 }, { 0x0B3E, 0x0B44 }, { 0x0B47, 0x0B48 }, { 0x0B4B, 0x0B4C },
+      { 0x0B56, 0x0B57 }, { 0x0B62, 0x0B63 }, { 0x0B82, 0x0B82 }, { 0x0BBE, 0x0BC2 },
+      { 0x0BC6, 0x0BC8 }, { 0x0BCA, 0x0BCC }, { 0x0BD7, 0x0BD7 }, { 0x0C00, 0x0C04 },
+      { 0x0C3E, 0x0C44 }, { 0x0C46, 0x0C48 }, { 0x0C4A, 0x0C4C }, { 0x0C55, 0x0C56 },
+      { 0x0C62, 0x0C63 }, { 0x0C81, 0x0C83 }, { 0x0CBE, 0x0CC4 }, { 0x0CC6, 0x0CC8 },
+      { 0x0CCA, 0x0CCC }, { 0x0CD5, 0x0CD6 }, { 0x0CE2, 0x0CE3 }, { 0x0CF3, 0x0CF3 },
+      { 0x0D00, 0x0D03 }, { 0x0D3E, 0x0D44 }, { 0x0D46, 0x0D48 }, { 0x0D4A, 0x0D4C },
+      { 0x0D57, 0x0D57 }, { 0x0D62, 0x0D63 }, { 0x0D81, 0x0D83 }, { 0x0DCF, 0x0DD4 },
+      { 0x0DD6, 0x0DD6 }, { 0x0DD8, 0x0DDF }, { 0x0DF2, 0x0DF3 }, { 0x0E31, 0x0E31 },
+      { 0x0E34, 0x0E3A }, { 0x0E4D, 0x0E4D }, { 0x0EB1, 0x0EB1 }, { 0x0EB4, 0x0EB9 },
+      { 0x0EBB, 0x0EBC }, { 0x0ECD, 0x0ECD }, { 0x0F71, 0x0F83 }, { 0x0F8D, 0x0F97 },
+      { 0x0F99, 0x0FBC }, { 0x102B, 0x1036 }, { 0x1038, 0x1038 }, { 0x103B, 0x103E },
+      { 0x1056, 0x1059 }, { 0x105E, 0x1060 }, { 0x1062, 0x1064 }, { 0x1067, 0x106D },
+      { 0x1071, 0x1074 }, { 0x1082, 0x108D }, { 0x108F, 0x108F }, { 0x109A, 0x109D },
+      { 0x1712, 0x1713 }, { 0x1732, 0x1733 }, { 0x1752, 0x1753 }, { 0x1772, 0x1773 },
+      { 0x17B6, 0x17C8 }, { 0x1885, 0x1886 }, { 0x18A9, 0x18A9 }, { 0x1920, 0x192B },
+      { 0x1930, 0x1938 }, { 0x1A17, 0x1A1B }, { 0x1A55, 0x1A5E }, { 0x1A61, 0x1A74 },
+      { 0x1ABF, 0x1AC0 }, { 0x1ACC, 0x1ACE }, { 0x1B00, 0x1B04 }, { 0x1B35, 0x1B43 },
+      { 0x1B80, 0x1B82 }, { 0x1BA1, 0x1BA9 }, { 0x1BAC, 0x1BAD }, { 0x1BE7, 0x1BF1 },
+      { 0x1C24, 0x1C36 }, { 0x1DE7, 0x1DF4 }, { 0x24B6, 0x24E9 }, { 0x2DE0, 0x2DFF },
+      { 0xA674, 0xA67B }, { 0xA69E, 0xA69F }, { 0xA802, 0xA802 }, { 0xA80B, 0xA80B },
+      { 0xA823, 0xA827 }, { 0xA880, 0xA881 }, { 0xA8B4, 0xA8C3 }, { 0xA8C5, 0xA8C5 },
+      { 0xA8FF, 0xA8FF }, { 0xA926, 0xA92A }, { 0xA947, 0xA952 }, { 0xA980, 0xA983 },
+      { 0xA9B4, 0xA9BF }, { 0xA9E5, 0xA9E5 }, { 0xAA29, 0xAA36 }, { 0xAA43, 0xAA43 },
+      { 0xAA4C, 0xAA4D }, { 0xAA7B, 0xAA7D }, { 0xAAB0, 0xAAB0 }, { 0xAAB2, 0xAAB4 },
+      { 0xAAB7, 0xAAB8 }, { 0xAABE, 0xAABE }, { 0xAAEB, 0xAAEF }, { 0xAAF5, 0xAAF5 },
+      { 0xABE3, 0xABEA }, { 0xFB1E, 0xFB1E }, { 0x10376, 0x1037A }, { 0x10A01, 0x10A03 },
+      { 0x10A05, 0x10A06 }, { 0x10A0C, 0x10A0F }, { 0x10D24, 0x10D27 }, { 0x10EAB, 0x10EAC },
+      { 0x11000, 0x11002 }, { 0x11038, 0x11045 }, { 0x11073, 0x11074 }, { 0x11080, 0x11082 },
+      { 0x110B0, 0x110B8 }, { 0x110C2, 0x110C2 }, { 0x11100, 0x11102 }, { 0x11127, 0x11132 },
+      { 0x11145, 0x11146 }, { 0x11180, 0x11182 }, { 0x111B3, 0x111BF }, { 0x111CE, 0x111CF },
+      { 0x1122C, 0x11234 }, { 0x11237, 0x11237 }, { 0x1123E, 0x1123E }, { 0x11241, 0x11241 },
+      { 0x112DF, 0x112E8 }, { 0x11300, 0x11303 }, { 0x1133E, 0x11344 }, { 0x11347, 0x11348 },
+      { 0x1134B, 0x1134C }, { 0x11357, 0x11357 }, { 0x11362, 0x11363 }, { 0x11435, 0x11441 },
+      { 0x11443, 0x11445 }, { 0x114B0, 0x114C1 }, { 0x115AF, 0x115B5 }, { 0x115B8, 0x115BE },
+      { 0x115DC, 0x115DD }, { 0x11630, 0x1163E }, { 0x11640, 0x11640 }, { 0x116AB, 0x116B5 },
+      { 0x1171D, 0x1172A }, { 0x1182C, 0x11838 }, { 0x11930, 0x11935 }, { 0x11937, 0x11938 },
+      { 0x1193B, 0x1193C }, { 0x11940, 0x11940 }, { 0x11942, 0x11942 }, { 0x119D1, 0x119D7 },
+      { 0x119DA, 0x119DF }, { 0x119E4, 0x119E4 }, { 0x11A01, 0x11A0A }, { 0x11A35, 0x11A39 },
+      { 0x11A3B, 0x11A3E }, { 0x11A51, 0x11A5B }, { 0x11A8A, 0x11A97 }, { 0x11C2F, 0x11C36 },
+      { 0x11C38, 0x11C3E }, { 0x11C92, 0x11CA7 }, { 0x11CA9, 0x11CB6 }, { 0x11D31, 0x11D36 },
+      { 0x11D3A, 0x11D3A }, { 0x11D3C, 0x11D3D }, { 0x11D3F, 0x11D41 }, { 0x11D43, 0x11D43 },
+      { 0x11D47, 0x11D47 }, { 0x11D8A, 0x11D8E }, { 0x11D90, 0x11D91 }, { 0x11D93, 0x11D96 },
+      { 0x11EF3, 0x11EF6 }, { 0x11F00, 0x11F01 }, { 0x11F03, 0x11F03 }, { 0x11F34, 0x11F3A },
+      { 0x11F3E, 0x11F40 }, { 0x16F4F, 0x16F4F }, { 0x16F51, 0x16F87 }, { 0x16F8F, 0x16F92 },
+      { 0x16FF0, 0x16FF1 }, { 0x1BC9E, 0x1BC9E }, { 0x1E000, 0x1E006 }, { 0x1E008, 0x1E018 },
+      { 0x1E01B, 0x1E021 }, { 0x1E023, 0x1E024 }, { 0x1E026, 0x1E02A }, { 0x1E08F, 0x1E08F },
+      { 0x1E947, 0x1E947 }, { 0x1F130, 0x1F149 }, { 0x1F150, 0x1F169 }, { 0x1F170, 0x1F189 },
+    }};
+
+    auto constexpr other_lowercase = std::array<std::pair<character::int_type, character::int_type>, 28> {{
+      { 0x00AA, 0x00AA }, { 0x00BA, 0x00BA }, { 0x02B0, 0x02B8 }, { 0x02C0, 0x02C1 },
+      { 0x02E0, 0x02E4 }, { 0x0345, 0x0345 }, { 0x037A, 0x037A }, { 0x10FC, 0x10FC },
+      { 0x1D2C, 0x1D6A }, { 0x1D78, 0x1D78 }, { 0x1D9B, 0x1DBF }, { 0x2071, 0x2071 },
+      { 0x207F, 0x207F }, { 0x2090, 0x209C }, { 0x2170, 0x217F }, { 0x24D0, 0x24E9 },
+      { 0x2C7C, 0x2C7D }, { 0xA69C, 0xA69D }, { 0xA770, 0xA770 }, { 0xA7F2, 0xA7F4 },
+      { 0xA7F8, 0xA7F9 }, { 0xAB5C, 0xAB5F }, { 0xAB69, 0xAB69 }, { 0x10780, 0x10780 },
+      { 0x10783, 0x10785 }, { 0x10787, 0x107B0 }, { 0x107B2, 0x107BA }, { 0x1E030, 0x1E06D },
+    }};
+
+    auto constexpr other_uppercase = std::array<std::pair<character::int_type, character::int_type>, 5> {{
+      { 0x2160, 0x216F }, { 0x24B6, 0x24CF }, { 0x1F130, 0x1F149 }, { 0x1F150, 0x1F169 },
+      { 0x1F170, 0x1F189 },
+    }};
+
+    auto contains(auto const& ranges, character::int_type codepoint) -> bool
+    {
+      auto const iter = std::ranges::upper_bound(ranges, codepoint, {}, [](auto const& range) { return range.first; });
+
+      return iter != std::begin(ranges) and codepoint <= std::prev(iter)->second;
+    }
+  }
+
+  auto character::is_alphabetic() const noexcept -> bool
+  {
+    return property().is_letter() or property().is_any_of(property_code::Nl) or contains(other_alphabetic, codepoint);
+  }
+
+  auto character::is_lower_case() const noexcept -> bool
+  {
+    return property().is_lower_case() or contains(other_lowercase, codepoint);
+  }
+
+  auto character::is_upper_case() const noexcept -> bool
+  {
+    return property().is_upper_case() or contains(other_uppercase, codepoint);
+  }
+
   auto character::utf8() const -> std::string
   {
     auto chars = std::array<char, 5>();
-- 
2.43.0


From a16127db3df77ccdb66b4d8c1945a32ad8765f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 69/69] fix: case folding is the simple case folding of Unicode
 and -ci comparisons use it

---
 include/meevax/kernel/character.hpp | 16 ++++++++++++++++
 library/r7rs.ss                     |  9 +++++++--
 src/kernel/boot.cpp                 | 20 ++++++++++----------
 src/kernel/textual_input_port.cpp   |  4 ++--
 4 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index 6bcac04..be9fc68 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -216,6 +216,22 @@ namespace meevax::inline kernel
       }
     }
 
+    auto constexpr foldcase() const noexcept -> int_type // NOTE: simple case folding
+    {
+      if (auto const c = upcase(); codepoint == 0x130 or codepoint == 0x131)
+      {
+        return codepoint;
+      }
+      else if (0x13A0 <= c and c <= 0x13F5) // Cherokee letters are folded to upper case.
+      {
+        return c;
+      }
+      else
+      {
+        return character(c).downcase();
+      }
+    }
+
     auto utf8() const -> std::string;
 
     constexpr operator int_type() const
diff --git a/library/r7rs.ss b/library/r7rs.ss
index 4a51f30..0144f77 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -371,7 +371,7 @@
 (define-library (scheme char)
   (import (only (meevax character) digit-value)
           (only (scheme r5rs) char-ci=? char-ci<? char-ci>? char-ci<=? char-ci>=? char-alphabetic? char-numeric? char-whitespace? char-upper-case? char-lower-case? char-upcase char-downcase string-ci=? string-ci<? string-ci>? string-ci<=? string-ci>=?)
-          (only (scheme base) define string-map))
+          (only (scheme base) char<=? char=? cond define let or string-map))
 
   (export char-ci=? char-ci<? char-ci>? char-ci<=? char-ci>=? char-alphabetic?
           char-numeric? char-whitespace? char-upper-case? char-lower-case?
@@ -379,7 +379,12 @@
           string-ci<? string-ci>? string-ci<=? string-ci>=? string-upcase
           string-downcase string-foldcase)
 
-  (begin (define char-foldcase char-downcase)
+  (begin (define (char-foldcase x)
+           (let ((y (char-upcase x)))
+             (cond ((or (char=? x #\x130)
+                        (char=? x #\x131)) x)
+                   ((char<=? #\x13A0 y #\x13F5) y)
+                   (else (char-downcase y)))))
 
          (define (string-upcase x)
            (string-map char-upcase x))
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 8653d97..34ca8c5 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -93,11 +93,11 @@ namespace meevax::inline kernel
       { "char<=?",                       [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().codepoint <= b.as<character>().codepoint); }) == std::ranges::end(xs | as_proper_list)); } },
       { "char>?",                        [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().codepoint >  b.as<character>().codepoint); }) == std::ranges::end(xs | as_proper_list)); } },
       { "char>=?",                       [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().codepoint >= b.as<character>().codepoint); }) == std::ranges::end(xs | as_proper_list)); } },
-      { "char-ci=?",                     [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() == b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
-      { "char-ci<?",                     [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() <  b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
-      { "char-ci<=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() <= b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
-      { "char-ci>?",                     [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() >  b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
-      { "char-ci>=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() >= b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
+      { "char-ci=?",                     [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().foldcase() == b.as<character>().foldcase()); }) == std::ranges::end(xs | as_proper_list)); } },
+      { "char-ci<?",                     [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().foldcase() <  b.as<character>().foldcase()); }) == std::ranges::end(xs | as_proper_list)); } },
+      { "char-ci<=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().foldcase() <= b.as<character>().foldcase()); }) == std::ranges::end(xs | as_proper_list)); } },
+      { "char-ci>?",                     [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().foldcase() >  b.as<character>().foldcase()); }) == std::ranges::end(xs | as_proper_list)); } },
+      { "char-ci>=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().foldcase() >= b.as<character>().foldcase()); }) == std::ranges::end(xs | as_proper_list)); } },
       { "char-alphabetic?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_alphabetic()); } },
       { "char-numeric?",                 [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_numeric()); } },
       { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_whitespace()); } },
@@ -356,11 +356,11 @@ namespace meevax::inline kernel
       { "string>?",                      [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >  b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string<=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() <= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string>=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci=?",                 [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return less_than(s1, s2) or less_than(s2, s1); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>?",                 [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return not less_than(s2, s1); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<=?",                [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return less_than(s2, s1); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>=?",                [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return less_than(s1, s2); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci=?",                 [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.foldcase() < c2.foldcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return less_than(s1, s2) or less_than(s2, s1); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.foldcase() <  c2.foldcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>?",                 [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.foldcase() < c2.foldcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return not less_than(s2, s1); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<=?",                [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.foldcase() < c2.foldcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return less_than(s2, s1); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>=?",                [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto less = [](auto const& c1, auto const& c2) { return c1.foldcase() < c2.foldcase(); }; auto less_than = [&](let const& a, let const& b) { return std::lexicographical_compare(a.as<string>().characters.begin(), a.as<string>().characters.end(), b.as<string>().characters.begin(), b.as<string>().characters.end(), less); }; return less_than(s1, s2); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string-append",                 [](let const& xs) { let s = make<string>(); for (let const& x : xs | as_proper_list) { s.as<string>().characters.insert(s.as<string>().characters.end(), x.as<string>().characters.begin(), x.as<string>().characters.end()); } return s; } },
       { "string->list",                  [](let const& xs) { auto push = [](let const& xs, character const& c) { return cons(make<character>(c), xs); }; switch (length(xs)) { case 1: return std::accumulate(car(xs).as<string>().characters.rbegin(), car(xs).as<string>().characters.rend(), unit, push); case 2: return std::accumulate(car(xs).as<string>().characters.rbegin(), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); case 3: return std::accumulate(std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); default: throw error(make<string>("procedure string->list takes one to three arugments, but got"), xs); } } },
       { "list->string",                  [](let const& xs) { return make<string>(car(xs) | as_proper_list); } },
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 5770d44..27e459e 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -473,11 +473,11 @@ namespace meevax::inline kernel
     {
       auto token = string();
 
-      token.characters.emplace_back(fold_case ? c.downcase() : c);
+      token.characters.emplace_back(fold_case ? c.foldcase() : c);
 
       while (not is_special_character(peek_character()))
       {
-        token.characters.emplace_back(fold_case ? take_character().downcase()
+        token.characters.emplace_back(fold_case ? take_character().foldcase()
                                                 : take_character());
       }
 
-- 
2.43.0

