From f47a8ee93452f2bb394460d89dfddf87193d17c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 01/41] fix: compile-time simplification of k - 0 is ambiguous
 for every constant other than 1 and -1

---
 viennamath/manipulation/simplify.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 343b618..1a92c8b 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -645,24 +645,14 @@ namespace viennamath
       };
 
       //resolve ambiguity:
-      template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<1>,
-                                          op_minus<NumericT>,
-                                          ct_constant<0>
-                                          >  >
-      {
-        static const int value = 1;
-        typedef ct_constant<1>   type;
-      };
-
-      template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<-1>,
+      template <long value_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
                                           op_minus<NumericT>,
                                           ct_constant<0>
                                           >  >
       {
         static const int value = 1;
-        typedef ct_constant<-1>   type;
+        typedef ct_constant<value_1>   type;
       };
 
 
-- 
2.43.0


From 08ff71c34d9ef9db2055bdc82810da79f31628bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:20 +0000
Subject: [PATCH 02/41] fix: compile-time rational arithmetic truncates
 numerators and denominators to int

---
 viennamath/forwards.h                |  4 +--
 viennamath/manipulation/simplify.hpp | 52 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/viennamath/forwards.h b/viennamath/forwards.h
index 62d5a75..69be73e 100644
--- a/viennamath/forwards.h
+++ b/viennamath/forwards.h
@@ -657,14 +657,14 @@ namespace viennamath
     template <long a, long b>
     struct gcd
     {
-      static const int value = gcd<b, a % b>::value;
+      static const long value = gcd<b, a % b>::value;
     };
 
     /** @brief Specialization for the computation of the greatest common divisor of a and 0, which is a */
     template <long a>
     struct gcd <a, 0>
     {
-      static const int value = a;
+      static const long value = a;
     };
 
     /** @brief Specialization forcing a compile time error, since the greatest common divisor of 0 and 0 is not defined. */
diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 1a92c8b..fe71a49 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -365,8 +365,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -384,8 +384,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 + numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 + numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -403,8 +403,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 + value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 + value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -426,8 +426,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -444,8 +444,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 - numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 - numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -462,8 +462,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 - value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 - value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -480,8 +480,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -502,8 +502,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * numerator_2;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -520,8 +520,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -538,8 +538,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * value_2;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 * value_2;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -559,8 +559,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2;
-        static const int denominator = denominator_1 * numerator_2;
+        static const long numerator = numerator_1 * denominator_2;
+        static const long denominator = denominator_1 * numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -577,8 +577,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2;
-        static const int denominator = numerator_2;
+        static const long numerator = value_1 * denominator_2;
+        static const long denominator = numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -595,8 +595,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1 * value_2;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * value_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
-- 
2.43.0


From 51a38032d73cde067c1e0d1800eeb7552df1307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 03/41] fix: simplify() of a compile-time expression is
 ambiguous with the generic pass-through overload

---
 viennamath/manipulation/simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index fe71a49..3078a6b 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -952,7 +952,8 @@ namespace viennamath
 
   /** @brief Returns a new, simplified expression. */
   template <typename T>
-  T simplify(T const & e)
+  typename enable_if<!result_of::is_compiletime<T>::value, T>::type
+  simplify(T const & e)
   {
     //do nothing, since primitive types cannot be simplified
     return e;
-- 
2.43.0


From d795bbfd3a0a433355724f6403bfdf57fb12c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 04/41] fix: compile-time simplification rules are ambiguous
 for zero, one and rational operands

For example 0 + 1/2, 1/2 * 0, 0 + (0 - x), 1 * (1/x), 2 * (1/3) and 0 / (1/2)
each match two rules of which neither is more specialized, so simplify() does
not compile for these expressions.
---
 viennamath/manipulation/simplify.hpp | 188 +++++++++++++++++++++++++++
 1 file changed, 188 insertions(+)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 3078a6b..883e98b 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -767,6 +767,194 @@ namespace viennamath
         typedef ct_constant<-value_1>            type;
       };
 
+      ///////////////////// Resolve remaining ambiguities among the rules above ////////////////////////////////
+
+      // 0 plus (0 minus X), and vice versa:
+      template <typename NumericT, typename X>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_plus<NumericT>, ct_binary_expr<ct_constant<0>, op_minus<NumericT>, X>> >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, X>          type;
+      };
+
+      template <typename NumericT, typename X>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, X>, op_plus<NumericT>, ct_constant<0>> >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, X>          type;
+      };
+
+      // (0 minus X) minus 0:
+      template <typename NumericT, typename X>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, X>, op_minus<NumericT>, ct_constant<0>> >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, X>          type;
+      };
+
+      // 0 plus rational number, and vice versa:
+      template <typename NumericT, long num, long den>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_plus<NumericT>, ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>> >::type          type;
+      };
+
+      template <typename NumericT, long num, long den>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>>, op_plus<NumericT>, ct_constant<0>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>> >::type          type;
+      };
+
+      // 0 or 1 times (1 / X), and vice versa:
+      template <typename NumericT, typename X>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, X>> >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, typename X>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, X>, op_mult<NumericT>, ct_constant<0>> >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, typename X>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, X>> >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, X>          type;
+      };
+
+      template <typename NumericT, typename X>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, X>, op_mult<NumericT>, ct_constant<1>> >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, X>          type;
+      };
+
+      // 0 or 1 times rational number, and vice versa:
+      template <typename NumericT, long num, long den>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_mult<NumericT>, ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>>> >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, long num, long den>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>>, op_mult<NumericT>, ct_constant<0>> >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, long num, long den>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>, op_mult<NumericT>, ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>> >::type          type;
+      };
+
+      template <typename NumericT, long num, long den>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>>, op_mult<NumericT>, ct_constant<1>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>> >::type          type;
+      };
+
+      // constant times (1 / constant), and vice versa:
+      template <typename NumericT, long val, long den>
+      struct simplify_impl< ct_binary_expr<ct_constant<val>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<val>, op_div<NumericT>, ct_constant<den>> >::type          type;
+      };
+
+      template <typename NumericT, long val, long den>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>>, op_mult<NumericT>, ct_constant<val>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<val>, op_div<NumericT>, ct_constant<den>> >::type          type;
+      };
+
+      // 0 or 1 times (1 / constant), and vice versa:
+      template <typename NumericT, long den>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>>> >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, long den>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>>, op_mult<NumericT>, ct_constant<0>> >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      template <typename NumericT, long den>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>> >::type          type;
+      };
+
+      template <typename NumericT, long den>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>>, op_mult<NumericT>, ct_constant<1>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>> >::type          type;
+      };
+
+      // rational number times (1 / constant), and vice versa:
+      template <typename NumericT, long den, long num_2, long den_2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>>, op_mult<NumericT>, ct_binary_expr<ct_constant<num_2>, op_div<NumericT>, ct_constant<den_2>>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<num_2>, op_div<NumericT>, ct_constant<den * den_2>> >::type          type;
+      };
+
+      template <typename NumericT, long num_1, long den_1, long den>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<num_1>, op_div<NumericT>, ct_constant<den_1>>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den>>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<num_1>, op_div<NumericT>, ct_constant<den_1 * den>> >::type          type;
+      };
+
+      template <typename NumericT, long den_1, long den_2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den_1>>, op_mult<NumericT>, ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den_2>>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<den_1 * den_2>> >::type          type;
+      };
+
+      // rational number divided by 1:
+      template <typename NumericT, long num, long den>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>>, op_div<NumericT>, ct_constant<1>> >
+      {
+        static const int value = 1;
+        typedef typename simplify_impl<ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>> >::type          type;
+      };
+
+      // 0 divided by rational number:
+      template <typename NumericT, long num, long den>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_div<NumericT>, ct_binary_expr<ct_constant<num>, op_div<NumericT>, ct_constant<den>>> >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // 0 divided by -1:
+      template <typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>, op_div<NumericT>, ct_constant<-1>> >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
 
     } //namespace detail
 
-- 
2.43.0


From f188875801839b388f772238f90227c8ca47157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 05/41] fix: condensing a compile-time constant with a runtime
 constant does not compile

value + rt_constant yields an expression rather than a number.
---
 viennamath/compiletime/operations/ct_constant.hpp | 8 ++++----
 viennamath/runtime/operations/constant.hpp        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_constant.hpp b/viennamath/compiletime/operations/ct_constant.hpp
index ae359f7..dd7a4fb 100644
--- a/viennamath/compiletime/operations/ct_constant.hpp
+++ b/viennamath/compiletime/operations/ct_constant.hpp
@@ -43,7 +43,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 + X) -> [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -70,7 +70,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 - X) -> [ct_c1 + ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -109,7 +109,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 + X) -> [ct_c1 - ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -136,7 +136,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 - X) -> [ct_c1 - ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
diff --git a/viennamath/runtime/operations/constant.hpp b/viennamath/runtime/operations/constant.hpp
index d00ef5d..2fc4e39 100644
--- a/viennamath/runtime/operations/constant.hpp
+++ b/viennamath/runtime/operations/constant.hpp
@@ -125,7 +125,7 @@ namespace viennamath
       typedef rt_constant<ScalarType, InterfaceType>    result_constant;
       return ct_binary_expr<result_constant,
                             op_minus<default_numeric_type>,
-                            RHS >(result_constant(value + other),
+                            RHS >(result_constant(value + static_cast<ScalarType>(other)),
                                   lhs.rhs());
     }
 
-- 
2.43.0


From 8e9749566fcfb0b82d46c0d13699c72de620d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 06/41] fix: quotient of two condensed expressions holding
 different runtime constants is taken as 1

(c1 + (1 + x)) / (c2 + (1 + x)) evaluated to 1 for c1 != c2, because both operands
are of the same type. The overload is now restricted to expressions without runtime
constants; the generic overload keeps the operands instead of default-constructing them.
---
 viennamath/compiletime/operations/ct_ct.hpp   |  8 +++----
 viennamath/compiletime/operations/ct_expr.hpp | 21 +++++++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_ct.hpp b/viennamath/compiletime/operations/ct_ct.hpp
index 6eb3a95..e3a3eb5 100644
--- a/viennamath/compiletime/operations/ct_ct.hpp
+++ b/viennamath/compiletime/operations/ct_ct.hpp
@@ -40,7 +40,7 @@ namespace viennamath
                              op_plus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for subtracting two compiletime expressions */
@@ -51,7 +51,7 @@ namespace viennamath
                              op_minus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for multiplying two compiletime expressions */
@@ -62,7 +62,7 @@ namespace viennamath
                              op_mult<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for dividing two compiletime expressions */
@@ -73,7 +73,7 @@ namespace viennamath
                              op_div<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
   }
diff --git a/viennamath/compiletime/operations/ct_expr.hpp b/viennamath/compiletime/operations/ct_expr.hpp
index 1aa3b59..9737c0c 100644
--- a/viennamath/compiletime/operations/ct_expr.hpp
+++ b/viennamath/compiletime/operations/ct_expr.hpp
@@ -154,9 +154,26 @@ namespace viennamath
 
   /////////////////////////////////// operator/ ///////////////////////////////////
 
-      /** @brief Special overload: division of the same thing leads to '1' */
+      namespace detail
+      {
+        /** @brief Helper metafunction: True if the value of an expression is fully determined by its type, i.e. there is no runtime constant in it. */
+        template <typename T>
+        struct has_compiletime_value { enum { value = result_of::is_compiletime<T>::value }; };
+
+        template <typename LHS, typename OP, typename RHS>
+        struct has_compiletime_value<ct_binary_expr<LHS, OP, RHS> >
+        {
+          enum { value = has_compiletime_value<LHS>::value && has_compiletime_value<RHS>::value };
+        };
+
+        template <typename LHS, typename OP>
+        struct has_compiletime_value<ct_unary_expr<LHS, OP> > { enum { value = has_compiletime_value<LHS>::value }; };
+      }
+
+      /** @brief Special overload: division of the same thing leads to '1'. Two expressions of the same type are only known to be the same if they do not hold runtime constants. */
       template <typename LHS, typename OP, typename RHS>
-      ct_constant<1>
+      typename enable_if< detail::has_compiletime_value<LHS>::value && detail::has_compiletime_value<RHS>::value,
+                          ct_constant<1> >::type
       operator/(ct_binary_expr<LHS, OP, RHS> const & /*lhs*/,
                 ct_binary_expr<LHS, OP, RHS> const & /*other*/)
       {
-- 
2.43.0


From d5c32bceae95b323326e078681228d5afe1aa034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 07/41] fix: compile-time expression holding a runtime constant
 cannot be converted to a runtime expression

---
 viennamath/runtime/binary_expr.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6a8bd51..6edff24 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -65,8 +65,8 @@ namespace viennamath
       explicit rt_binary_expr(ct_binary_expr<LHS, OP, RHS> const & other) : op_(new op_binary<OP, InterfaceType>())
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(operand(other.lhs()));
+        rhs_ = std::auto_ptr<InterfaceType>(operand(other.rhs()));
       }
 
       /////////////// special case: ct_constant involved: ////////////////////////
@@ -74,7 +74,7 @@ namespace viennamath
       explicit rt_binary_expr(ct_binary_expr<LHS, OP, ct_constant<value> > const & other) : op_(new op_binary<OP, InterfaceType>())
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(operand(other.lhs()));
         rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
       }
 
@@ -83,7 +83,7 @@ namespace viennamath
       {
         //std::cout << "Constructing from expression " << other << std::endl;
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        rhs_ = std::auto_ptr<InterfaceType>(operand(other.rhs()));
       }
 
       template <long value1, typename OP, long value2>
@@ -99,7 +99,7 @@ namespace viennamath
       explicit rt_binary_expr(ct_binary_expr<LHS, OP, ct_variable<id> > const & other) : op_(new op_binary<OP, InterfaceType>())
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(operand(other.lhs()));
         rhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
       }
 
@@ -108,7 +108,7 @@ namespace viennamath
       {
         //std::cout << "Constructing from expression " << other << std::endl;
         lhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        rhs_ = std::auto_ptr<InterfaceType>(operand(other.rhs()));
       }
 
       template <id_type id1, typename OP, id_type id2>
@@ -160,9 +160,9 @@ namespace viennamath
       template <typename LHS, typename OP, typename RHS>
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, RHS> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(operand(other.lhs()));
         op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        rhs_ = std::auto_ptr<InterfaceType>(operand(other.rhs()));
         return *this;
       }
 
@@ -170,7 +170,7 @@ namespace viennamath
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, ct_constant<value> > const & other)
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(operand(other.lhs()));
         op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
         rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
         return *this;
@@ -182,7 +182,7 @@ namespace viennamath
         //std::cout << "Constructing from expression " << other << std::endl;
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
         op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        rhs_ = std::auto_ptr<InterfaceType>(operand(other.rhs()));
         return *this;
       }
 
@@ -442,6 +442,13 @@ namespace viennamath
       }
 
     private:
+      /** @brief Returns the runtime representation of an operand of a compiletime expression (which may hold runtime constants). The caller takes ownership. */
+      template <typename T>
+      static InterfaceType * operand(T const & e) { return new rt_binary_expr<InterfaceType>(e); }
+
+      template <typename ScalarType>
+      static InterfaceType * operand(rt_constant<ScalarType, InterfaceType> const & e) { return e.clone(); }
+
       /** @brief The left hand side operand */
       std::auto_ptr<InterfaceType>         lhs_;
       /** @brief The operation */
-- 
2.43.0


From 510482731e05a03aff8e3e3eac681c930fa71dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 08/41] fix: runtime binary expression assigned a constant
 throws when evaluated

The constant was stored as binary expression with a unary operation.
---
 viennamath/runtime/binary_expr.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6edff24..4abbecf 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -190,9 +190,9 @@ namespace viennamath
       rt_binary_expr & operator=(ct_binary_expr<ct_constant<value1>, OP, ct_constant<value2> > const &)
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
+        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value1));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value2));
         return *this;
       }
 
@@ -208,23 +208,21 @@ namespace viennamath
       template <typename ScalarType>
       rt_binary_expr & operator=(rt_constant<ScalarType> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        return *this;
+        return *this = static_cast<numeric_type>(other);
       }
 
       template <long value>
       rt_binary_expr & operator=(ct_constant<value> const &)
       {
-        return *this = value;
+        return *this = static_cast<numeric_type>(value);
       }
 
       rt_binary_expr & operator=(numeric_type value)
       {
+        // a plain number is represented as value + 0
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary<op_plus<numeric_type>, InterfaceType>());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0));
         return *this;
       }
 
-- 
2.43.0


From dfe42639caba7790280e849820add740b27985a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 09/41] fix: assigning a compile-time variable to an expression
 wrapper creates a constant and does not compile

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index f2d767e..0b7998d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -161,7 +161,7 @@ namespace viennamath
       template <id_type id>
       rt_expr & operator=(ct_variable<id> const &)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_constant<InterfaceType>(id));
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
         return *this;
       }
 
-- 
2.43.0


From 068c53e4b2ba9d3aacad300876ff806fa88c00f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 10/41] fix: assigning an empty expression wrapper dereferences
 a null pointer

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index 0b7998d..57e601d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -128,7 +128,7 @@ namespace viennamath
 
       rt_expr & operator=(rt_expr const & other)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());
+        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
         return *this;
       }
 
-- 
2.43.0


From 645389abc73ae3c5f3ccb2bcd86adca0ec78b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 11/41] fix: assignment of runtime unary expressions does not
 compile

---
 viennamath/runtime/unary_expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index d861e4d..2576b3a 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,7 +93,7 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs_->clone());
+        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
         op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
         return *this;
       }
-- 
2.43.0


From 2a374f9114a476a1e876929b0972020afb2b2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:24 +0000
Subject: [PATCH 12/41] fix: diff(variable, variable) had non-deducible
 template parameters and could not be called

---
 viennamath/manipulation/diff.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viennamath/manipulation/diff.hpp b/viennamath/manipulation/diff.hpp
index 5d52a3a..21ca518 100644
--- a/viennamath/manipulation/diff.hpp
+++ b/viennamath/manipulation/diff.hpp
@@ -207,8 +207,7 @@ namespace viennamath
   //////////// derivative of a variable: /////////////////////////////////
 
   /** @brief Overload for computing the derivative of a runtime variable */
-  template <id_type other_id, typename InterfaceType,
-            id_type id>
+  template <typename InterfaceType>
   rt_constant<typename InterfaceType::numeric_type> diff(rt_variable<InterfaceType> const & c,
                                                          rt_variable<InterfaceType> const & var)
   {
-- 
2.43.0


From 365346784c01e683e3272cc964a12c1b3b187d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:12 +0000
Subject: [PATCH 13/41] fix: derivative of a gradient with respect to its
 function symbol leaked an expression

---
 viennamath/manipulation/detail/unary_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index fcf4617..e71e03d 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -656,7 +656,7 @@ namespace viennamath
 
       // return grad(...)
       delete c0;
-      return new rt_unary_expr<InterfaceType>(e->diff(diff_var), new op_unary<op_gradient<NumericT>, InterfaceType>());
+      return new rt_unary_expr<InterfaceType>(new_expr, new op_unary<op_gradient<NumericT>, InterfaceType>());
     }
 
     throw expression_not_differentiable_exception("Cannot differentiate gradient operator!");
-- 
2.43.0


From 4e09b23dd71f423eeff62cff1248adf835f6cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:14 +0000
Subject: [PATCH 14/41] fix: substituting an expression wrapper for a variable
 did not compile

---
 viennamath/manipulation/substitute.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ab80b62..233d864 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -183,6 +183,17 @@ namespace viennamath
     return temp;
   }
 
+  /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with 'repl'. */
+  template <typename InterfaceType>
+  rt_expr<InterfaceType> substitute(rt_variable<InterfaceType> const & u,
+                                    rt_expr<InterfaceType> const & repl,
+                                    rt_expr<InterfaceType> const & e)
+  {
+    rt_expr<InterfaceType> temp(e.get()->substitute(&u, repl.get()));
+    inplace_simplify(temp);
+    return temp;
+  }
+
   /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with 'repl'. */
   template <typename InterfaceType>
   rt_expr<InterfaceType> substitute(rt_variable<InterfaceType> const & u,
-- 
2.43.0


From c137ea5d19f259d1fc4ee8d737b3bbcf150933e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 15/41] fix: comparing vector expressions of different size
 read out of bounds or reported them equal

---
 viennamath/runtime/vector_expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index b3bd26d..ca30ad0 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -139,9 +139,9 @@ namespace viennamath
         if (dynamic_cast< const self_type * >(other) != NULL)
         {
           const self_type * temp = dynamic_cast< const self_type * >(other);
-          bool is_equal = true;
+          bool is_equal = (temp->size() == BaseType::size());
 
-          for (std::size_t i=0; i<temp->size(); ++i)
+          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
             is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );
 
 
-- 
2.43.0


From 97b5433bfd25ab6a14af1217310ec0b74779d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:51 +0000
Subject: [PATCH 16/41] fix: integrals over different intervals, variables or
 symbolic domains compared equal

---
 viennamath/runtime/integral.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index 6f1e71f..56c9057 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -96,6 +96,17 @@ namespace viennamath
 
 
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two integrals for equality with respect to the integration interval and the integration variable */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_integral<InterfaceType> const & lhs, op_rt_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().lower().get()->deep_equal(rhs.interval().lower().get())
+           && lhs.interval().upper().get()->deep_equal(rhs.interval().upper().get())
+           && lhs.variable().id() == rhs.variable().id();
+  }
+
+
   //
   // Convenience functions with rt_interval:
   //
@@ -186,6 +197,15 @@ namespace viennamath
   };
 
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two symbolic integrals for equality with respect to the symbolic integration domain */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_symbolic_integral<InterfaceType> const & lhs, op_rt_symbolic_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().id() == rhs.interval().id();
+  }
+
+
   //
   // Convenience functions with symbolic integrals
   //
-- 
2.43.0


From fb25ee7b92fb2014cdff1fc8b42945a5e9b58cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 17/41] fix: assigning a run-time expression node from its own
 operand used freed memory

---
 viennamath/runtime/binary_expr.hpp | 10 +++++++---
 viennamath/runtime/unary_expr.hpp  |  7 +++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 4abbecf..e14a1ec 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -199,9 +199,13 @@ namespace viennamath
 
       rt_binary_expr & operator=(rt_binary_expr const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.lhs()->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
-        rhs_ = std::auto_ptr<InterfaceType>(other.rhs()->clone());
+        //'other' might be a part of this expression, so copy everything before releasing the old operands
+        std::auto_ptr<InterfaceType> new_lhs(other.lhs()->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op()->clone());
+        std::auto_ptr<InterfaceType> new_rhs(other.rhs()->clone());
+        lhs_ = new_lhs;
+        op_  = new_op;
+        rhs_ = new_rhs;
         return *this;
       }
 
diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 2576b3a..76ce1af 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,8 +93,11 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
+        //'other' might be a part of this expression, so copy everything before releasing the old operand
+        std::auto_ptr<InterfaceType> new_expr(other.expr_->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op_->clone());
+        expr_ = new_expr;
+        op_  = new_op;
         return *this;
       }
 
-- 
2.43.0


From fef9970611c85ee3d4d13692e61aabb032349964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:22 +0000
Subject: [PATCH 18/41] fix: message of variable_index_out_of_bounds_exception
 was read from a destroyed string

---
 viennamath/exception.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index e5ce131..205f93d 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -122,19 +122,20 @@ namespace viennamath
    */
   class variable_index_out_of_bounds_exception : public std::exception
   {
-    const char * what() const throw()
-    {
-      std::stringstream ss;
-      ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
-      return ss.str().c_str();
-    }
+    const char * what() const throw() { return message_.c_str(); }
 
     public:
-      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size) {}
+      variable_index_out_of_bounds_exception(long id, long vector_size)
+      {
+        std::stringstream ss;
+        ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id << ", vector_size=" << vector_size << std::endl;
+        message_ = ss.str();
+      }
+
+      virtual ~variable_index_out_of_bounds_exception() throw() {}
 
     private:
-      long id_;
-      long vector_size_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From 06468e05ccacd18536ced03e39db1c5358599b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 19/41] fix: compile-time integral of a variable other than the
 integration variable was taken as that of the integration variable

---
 viennamath/manipulation/integrate.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 0828d82..4fd2fbe 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -294,6 +294,7 @@ namespace viennamath
         typedef typename ct_function_symbol<TAG>::ERROR_INTEGRATION_OF_FUNCTION_SYMBOL_NOT_SUPPORTED    type;
       };
 
+      // variable other than the integration variable: constant with respect to the integration
       template <typename LowerBound, typename UpperBound,
                 id_type id,
                 typename VariableType>
@@ -301,6 +302,27 @@ namespace viennamath
                             ct_variable<id>,
                             VariableType
                             >
+      {
+        typedef ct_binary_expr<UpperBound,
+                              op_minus<default_numeric_type>,
+                              LowerBound
+                              >                    interval_length;
+
+        typedef ct_binary_expr< ct_variable<id>,
+                                op_mult<default_numeric_type>,
+                                interval_length
+                              >    integrated_type;
+
+        typedef typename viennamath::result_of::simplify<integrated_type>::type   type;
+      };
+
+      // integration variable:
+      template <typename LowerBound, typename UpperBound,
+                id_type id>
+      struct integrate_impl <LowerBound, UpperBound,
+                            ct_variable<id>,
+                            ct_variable<id>
+                            >
       {
         typedef ct_binary_expr< ct_binary_expr<UpperBound,
                                               op_mult<default_numeric_type>,
-- 
2.43.0


From 90e892389b8d0e576014e23e20203f156a9e61da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 20/41] fix: numerical quadrature of an integral over a
 symbolic domain dereferenced a null pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index b04694d..139db1c 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -151,11 +151,7 @@ namespace viennamath
             const SymbolicIntegrationOperation * op_symb_tmp = dynamic_cast<const SymbolicIntegrationOperation *>(integral_expression->op());
 
             if (op_symb_tmp != NULL)
-            {
-              return quadrature_rule_->eval(op_tmp->op().interval(),
-                                            rt_expr<InterfaceType>(integral_expression->lhs()->clone()),
-                                            op_tmp->op().variable());
-            }
+              throw symbolic_integral_evaluation_not_possible_exception();
 
             //std::cerr << "ERROR: No integral encountered in numerical quadrature!" << std::endl;
             //std::cerr << e << std::endl;
-- 
2.43.0


From fee3f5543d0acbe9620374a63427d5b8ce85cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 21/41] fix: copying a default-constructed numerical quadrature
 dereferenced a null pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index 139db1c..3f74037 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -116,13 +116,13 @@ namespace viennamath
 
 
       // Copy CTOR:
-      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_->clone()) {}
+      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_.get() ? other.quadrature_rule_->clone() : NULL) {}
 
 
       // Copy CTOR:
       rt_numerical_quadrature & operator=(const rt_numerical_quadrature & other)
       {
-        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_->clone());
+        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_.get() ? other.quadrature_rule_->clone() : NULL);
         return *this;
       }
 
-- 
2.43.0


From 4c167322b485bae661433a958de93f633df9da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 22/41] fix: assignment of intervals did not return a value

---
 viennamath/runtime/interval.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 2f1b5d2..ed1d9ba 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -56,6 +56,7 @@ namespace viennamath
       {
         lower_ = other.lower().get()->clone();
         upper_ = other.upper().get()->clone();
+        return *this;
       };
 
     private:
-- 
2.43.0


From 4e74270689d6df1c927a424d2c06aa7f1b99a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 23/41] fix: traversal of unary expressions ignored step_into()

---
 viennamath/runtime/unary_expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 76ce1af..4657c16 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -333,7 +333,8 @@ namespace viennamath
       void recursive_traversal(rt_traversal_wrapper<InterfaceType> const & fw) const
       {
         fw(this);
-        expr_->recursive_traversal(fw);
+        if (fw.step_into(this))
+          expr_->recursive_traversal(fw);
       }
 
     private:
-- 
2.43.0


From b6ace5b8cffe3aa2a23c4d8b12f09a81c2da6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 24/41] fix: substituting a symbolic interval replaced
 integrals over every symbolic interval

---
 viennamath/manipulation/substitute.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index 233d864..31d405a 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -307,7 +307,7 @@ namespace viennamath
     class integral_substitution_functor : public viennamath::rt_manipulation_interface<InterfaceType>
     {
       public:
-        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : ptr_(ptr) {}
+        integral_substitution_functor(id_type search_id, op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : search_id_(search_id), ptr_(ptr) {}
 
 
         InterfaceType * operator()(InterfaceType const * e) const
@@ -318,7 +318,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == search_id_)
             {
               //std::cout << "Modifies!" << std::endl;
               return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
@@ -338,7 +338,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == search_id_)
             {
               //std::cout << "FOUND!" << std::endl;
               return true;
@@ -348,6 +348,7 @@ namespace viennamath
         }
 
       private:
+        id_type search_id_;
         std::auto_ptr<const op_unary<op_rt_integral<InterfaceType>, InterfaceType> > ptr_;
     };
   } //namespace detail
@@ -359,13 +360,13 @@ namespace viennamath
    * @param e          The expression on which the substitution is carried out
    */
   template <typename InterfaceType, typename PairType>
-  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & /*search*/,
+  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & search,
                                     PairType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
     typedef op_rt_integral<InterfaceType>    OperatorT;
 
-    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
+    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(search.id(), new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
 
     rt_expr<InterfaceType> temp(e.get()->recursive_manipulation(fun));
 
-- 
2.43.0


From baf7141842e5acdca1c7b801421a1b631580ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 25/41] fix: substituting a symbolic interval left nested
 integrals over that interval unchanged

---
 viennamath/manipulation/substitute.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index 31d405a..ef9d2fb 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -321,7 +321,8 @@ namespace viennamath
             if (op_ptr != NULL && op_ptr->op().interval().id() == search_id_)
             {
               //std::cout << "Modifies!" << std::endl;
-              return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
+              viennamath::rt_manipulation_wrapper<InterfaceType> nested(new integral_substitution_functor(search_id_, new op_unary<op_rt_integral<InterfaceType>, InterfaceType>(ptr_->op())));
+              return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->recursive_manipulation(nested), ptr_->clone());
             }
           }
 
-- 
2.43.0


From d1166a83e5bf1a6d7602e47835388d873c572ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 26/41] fix: entries of vector expressions were never
 simplified

---
 viennamath/runtime/vector_expr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index ca30ad0..c776cc0 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -189,21 +189,21 @@ namespace viennamath
       };
 
       /** @brief Returns the optimized expression (constants collected, trivial operations removed, etc.) */
-      InterfaceType * optimize() const
+      InterfaceType * simplify() const
       {
         self_type * result = new self_type(BaseType::size());
 
         for (std::size_t i=0; i<result->size(); ++i)
-          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->optimize());
+          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->simplify());
 
         return result;
       }
 
       /** @brief Returns true if the expression can be simplified by collecting constants, removing trivial operations, etc. */
-      bool optimizable() const
+      bool can_simplify() const
       {
         for (std::size_t i=0; i<BaseType::size(); ++i)
-          if ( (*this)[i].get()->optimizable() == true )
+          if ( (*this)[i].get()->can_simplify() == true )
             return true;
 
         return false;
-- 
2.43.0


From 35536aaef0be2224fa5c5074bdcbafea0248e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 27/41] fix: manipulation and traversal of expressions did not
 reach the entries of vector expressions

---
 viennamath/runtime/vector_expr.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index c776cc0..ba75619 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -220,6 +220,29 @@ namespace viennamath
         return result;
       }
 
+      /** @brief If the wrapper modifies the vector expression, the manipulated expression is returned. Otherwise, the functor is applied recursively to the entries. */
+      InterfaceType * recursive_manipulation(rt_manipulation_wrapper<InterfaceType> const & fw) const
+      {
+        if (fw.modifies(this))
+          return fw(this);
+
+        self_type * result = new self_type(BaseType::size());
+
+        for (std::size_t i=0; i<result->size(); ++i)
+          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->recursive_manipulation(fw));
+
+        return result;
+      }
+
+      /** @brief Recursively traverses the vector expression by calling the wrapper for the vector and for each of its entries without manipulating them. */
+      void recursive_traversal(rt_traversal_wrapper<InterfaceType> const & fw) const
+      {
+        fw(this);
+        if (fw.step_into(this))
+          for (std::size_t i=0; i<BaseType::size(); ++i)
+            (*this)[i].get()->recursive_traversal(fw);
+      }
+
 
   };
 
-- 
2.43.0


From bab439d78e2058e93c2b85d6e2c2b2385052f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 28/41] fix: translating a runtime constant to LaTeX did not
 compile

---
 viennamath/manipulation/latex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index ef06ebe..88d3704 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -148,7 +148,7 @@ namespace viennamath
       std::string operator()(UnaryExpr  const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
 
       template <typename ScalarType>
-      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(e, use_parenthesis); }
+      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Variable   const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(FuncSymbol const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Equation   const & e, bool use_parenthesis = false) const
-- 
2.43.0


From 2cc679954cce7d919a0e53c3f52cf98c1c5b0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:03 +0000
Subject: [PATCH 29/41] fix: copies of a LaTeX translator lost the customized
 names

---
 viennamath/manipulation/latex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 88d3704..234506c 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -455,7 +455,7 @@ namespace viennamath
       typedef viennamath::rt_variable<InterfaceType>                         Variable;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
@@ -512,7 +512,7 @@ namespace viennamath
       typedef std::pair<id_type, id_type>           KeyType;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
-- 
2.43.0


From b2468c52dc43401d4669195d44f156a9c045dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:03 +0000
Subject: [PATCH 30/41] fix: assigning LaTeX translators freed their processors
 twice

---
 viennamath/manipulation/latex.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 234506c..52dffcb 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -125,6 +125,13 @@ namespace viennamath
         }
       }
 
+      rt_latex_translator & operator=(rt_latex_translator const & other)
+      {
+        rt_latex_translator temp(other);
+        processors_.swap(temp.processors_);
+        return *this;
+      }
+
       ~rt_latex_translator()
       {
         for (typename ProcessorArray::iterator it = processors_.begin();
-- 
2.43.0


From 0f723baed47e0af3b1307839730d55b053334152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 31/41] fix: compile-time vectors with one or two entries
 referred to destroyed temporaries

---
 viennamath/compiletime/ct_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viennamath/compiletime/ct_vector.hpp b/viennamath/compiletime/ct_vector.hpp
index 7f0c4b9..e9d369f 100644
--- a/viennamath/compiletime/ct_vector.hpp
+++ b/viennamath/compiletime/ct_vector.hpp
@@ -54,7 +54,7 @@ namespace viennamath
       size_t size() const { return 1; }
 
     private:
-      T0 const & t0_;
+      T0 t0_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with one entry to an output stream */
@@ -98,8 +98,8 @@ namespace viennamath
       std::size_t size() const { return 2; }
 
     private:
-      T0 const & t0_;
-      T1 const & t1_;
+      T0 t0_;
+      T1 t1_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with two entries to an output stream */
-- 
2.43.0


From ade67a882b7a7c56150fb3d2eb84f5974c403ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:51 +0000
Subject: [PATCH 32/41] fix: equations and intervals of a number and a runtime
 constant had a non-deducible template parameter

---
 viennamath/runtime/equation.hpp | 2 +-
 viennamath/runtime/interval.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/equation.hpp b/viennamath/runtime/equation.hpp
index aaf99fb..30025ab 100644
--- a/viennamath/runtime/equation.hpp
+++ b/viennamath/runtime/equation.hpp
@@ -72,7 +72,7 @@ namespace viennamath
 
   ////// scalar is first argument:
   /** @brief Generator for an equation with a (floating point) constant as left hand side and a ViennaMath runtime constant as right hand side */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_equation<InterfaceType> make_equation(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_equation<InterfaceType>(lhs, rhs);
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index ed1d9ba..976f738 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -92,7 +92,7 @@ namespace viennamath
   }
 
   /** @brief Creates an interval, where the upper bound is given by a ViennaMath constant */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_interval<InterfaceType> make_interval(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_interval<InterfaceType>(lhs, rhs);
-- 
2.43.0


From a7a6b60a596f5090b9e4b5749f7f58b28d3ae9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 33/41] fix: intervals starting at a compile-time variable were
 ambiguous between two overloads

---
 viennamath/runtime/interval.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 976f738..d34a8e6 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -224,14 +224,6 @@ namespace viennamath
     return rt_interval<typename RHSType::interface_type>(lhs, rhs);
   }
 
-  /** @brief Creates an interval, where the lower bound is given by a ViennaMath compiletime variable */
-  template <id_type id, typename RHSType>
-  rt_interval<typename RHSType::interface_type>
-  make_interval(ct_variable<id> const & lhs, RHSType const & rhs)
-  {
-    return rt_interval<typename RHSType::interface_type>(lhs, rhs);
-  }
-
 }
 
 #endif
-- 
2.43.0


From 8665a77509853c195c9aecd661fb9ac5c86fcda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:18 +0000
Subject: [PATCH 34/41] fix: exponential of a runtime unary expression did not
 compile

---
 viennamath/manipulation/detail/unary_operations.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index e71e03d..5c727fe 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -77,6 +77,13 @@ namespace viennamath
     return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_exp<default_numeric_type> >());
   }
 
+  /** @brief Overload of the exponential function for a ViennaMath runtime unary expression */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> exp(rt_unary_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the exponential function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_binary_expr<InterfaceType> const & other)
-- 
2.43.0


From 3459874fce95c967df0f144a9c4e625ea5565bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:18 +0000
Subject: [PATCH 35/41] fix: Laplace operator of an expression wrapper did not
 compile

---
 viennamath/manipulation/detail/unary_operations.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index 5c727fe..50a1b54 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -677,6 +677,13 @@ namespace viennamath
     return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
+  /** @brief Overload of the gradient function for a ViennaMath runtime expression wrapper */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> grad(rt_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the gradient function for a ViennaMath runtime unary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> grad(rt_unary_expr<InterfaceType> const & other)
-- 
2.43.0


From 274138cf602fc52b0e8c9540be8b9f32e109fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 36/41] fix: printing a compile-time function symbol did not
 compile

---
 viennamath/compiletime/ct_function_symbol.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/compiletime/ct_function_symbol.hpp b/viennamath/compiletime/ct_function_symbol.hpp
index 7560817..6d719f2 100644
--- a/viennamath/compiletime/ct_function_symbol.hpp
+++ b/viennamath/compiletime/ct_function_symbol.hpp
@@ -75,6 +75,7 @@ namespace viennamath
   template <typename Tag>
   class ct_function_symbol
   {
+    public:
       static std::string str()
       {
         return Tag::str();
-- 
2.43.0


From 23fc16c60403b9ca05ec9a9b2daa8c740653d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 37/41] fix: in-place simplification of runtime unary and
 binary expressions did not compile

---
 viennamath/manipulation/simplify.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 883e98b..cfbc9fa 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -1090,16 +1090,32 @@ namespace viennamath
   template <typename InterfaceType>
   void inplace_simplify(rt_unary_expr<InterfaceType> & e)
   {
-    while (e->can_simplify())
-      e = e->simplify();
+    rt_expr<InterfaceType> result(e);
+    inplace_simplify(result);
+
+    const rt_unary_expr<InterfaceType> * ptr = dynamic_cast< const rt_unary_expr<InterfaceType> * >(result.get());
+    if (ptr != NULL)
+      e = *ptr;
+    else // anything else is represented by the identity operation acting on it
+      e = rt_unary_expr<InterfaceType>(result.get()->clone());
   }
 
   /** @brief Simplifies an expression. Directly manipulates the provided expression. */
   template <typename InterfaceType>
   void inplace_simplify(rt_binary_expr<InterfaceType> & e)
   {
-    while (e->can_simplify())
-      e = e->simplify();
+    typedef typename InterfaceType::numeric_type   numeric_type;
+
+    rt_expr<InterfaceType> result(e);
+    inplace_simplify(result);
+
+    const rt_binary_expr<InterfaceType> * ptr = dynamic_cast< const rt_binary_expr<InterfaceType> * >(result.get());
+    if (ptr != NULL)
+      e = *ptr;
+    else // anything else is represented as result + 0
+      e = rt_binary_expr<InterfaceType>(result.get()->clone(),
+                                        new op_binary<op_plus<numeric_type>, InterfaceType>(),
+                                        new rt_constant<numeric_type, InterfaceType>(0));
   }
 
   /** @brief Simplifies an expression. Directly manipulates the provided expression. */
-- 
2.43.0


From 1ab63e350991a03f65d63e904dd3d3650966f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:42 +0000
Subject: [PATCH 38/41] fix: assigning a compile-time expression with a
 variable operand to a run-time binary expression did not compile

---
 viennamath/runtime/binary_expr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index e14a1ec..92665ad 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -451,6 +451,9 @@ namespace viennamath
       template <typename ScalarType>
       static InterfaceType * operand(rt_constant<ScalarType, InterfaceType> const & e) { return e.clone(); }
 
+      template <id_type id>
+      static InterfaceType * operand(ct_variable<id> const &) { return new rt_variable<InterfaceType>(id); }
+
       /** @brief The left hand side operand */
       std::auto_ptr<InterfaceType>         lhs_;
       /** @brief The operation */
-- 
2.43.0


From 71f9f093d6ca2a42cf5d182ed772c75e4047b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:04 +0000
Subject: [PATCH 39/41] fix: compile-time integration rejected integrands whose
 simplification factors out a minus sign

---
 viennamath/manipulation/integrate.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 4fd2fbe..6abb378 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -366,8 +366,11 @@ namespace viennamath
       typedef typename viennamath::result_of::expand<IntegrandType>::type         expanded_integrand;
       typedef typename viennamath::result_of::simplify<expanded_integrand>::type  simplified_integrand;
 
+      //simplification may factor out a minus sign again, e.g. (0-x)-5 becomes (-1)*(x+5)
+      typedef typename viennamath::result_of::expand<simplified_integrand>::type  final_integrand;
+
       typedef typename detail::integrate_impl<LowerBound, UpperBound,
-                                              simplified_integrand,
+                                              final_integrand,
                                               VariableType>::type    type;
 
     };
-- 
2.43.0


From ecae566885703725c777370abfef17d8d3ca14e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:33 +0000
Subject: [PATCH 40/41] fix: compile-time integration rejected products with a
 quotient by a sum free of the integration variable

---
 viennamath/manipulation/integrate.hpp | 32 ++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 6abb378..a598bb1 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -49,21 +49,37 @@ namespace viennamath
       static const int value = 1;
     };
 
-    /** @brief Specialization for forcing a compile time error if a sum of expressions is encountered. */
+    /** @brief Helper for the degree of a sum or difference: Forces a compile time error if the variable occurs. */
+    template <typename SumType, typename SumWithoutVariable>
+    struct polynomial_degree_of_sum
+    {
+      typedef typename SumType::ERROR_CANNOT_DEDUCE_POLYNOMIAL_DEGREE_FROM_SUM    error_type;
+    };
+
+    /** @brief A sum or difference in which the variable does not occur (e.g. in a denominator) is constant with respect to the variable. */
+    template <typename SumType>
+    struct polynomial_degree_of_sum <SumType, SumType>
+    {
+      static const int value = 0;
+    };
+
+    /** @brief Specialization for forcing a compile time error if a sum of expressions containing the variable is encountered. */
     template <typename VariableType,
               typename LHS, typename NumericT, typename RHS>
     struct polynomial_degree <VariableType, ct_binary_expr<LHS, op_plus<NumericT>, RHS> >
-    {
-      typedef typename ct_binary_expr<LHS, op_plus<NumericT>, RHS>::ERROR_CANNOT_DEDUCE_POLYNOMIAL_DEGREE_FROM_SUM    error_type;
-    };
+      : public polynomial_degree_of_sum< ct_binary_expr<LHS, op_plus<NumericT>, RHS>,
+                                         typename viennamath::result_of::substitute<VariableType,
+                                                                                    ct_constant<1>,
+                                                                                    ct_binary_expr<LHS, op_plus<NumericT>, RHS> >::type > {};
 
-    /** @brief Specialization for forcing a compile time error if a difference of expressions is encountered. */
+    /** @brief Specialization for forcing a compile time error if a difference of expressions containing the variable is encountered. */
     template <typename VariableType,
               typename LHS, typename NumericT, typename RHS>
     struct polynomial_degree <VariableType, ct_binary_expr<LHS, op_minus<NumericT>, RHS> >
-    {
-      typedef typename ct_binary_expr<LHS, op_plus<NumericT>, RHS>::ERROR_CANNOT_DEDUCE_POLYNOMIAL_DEGREE_FROM_SUM    error_type;
-    };
+      : public polynomial_degree_of_sum< ct_binary_expr<LHS, op_minus<NumericT>, RHS>,
+                                         typename viennamath::result_of::substitute<VariableType,
+                                                                                    ct_constant<1>,
+                                                                                    ct_binary_expr<LHS, op_minus<NumericT>, RHS> >::type > {};
 
     /** @brief Specialization for a product: The polynomial degree is given by the sum of the polynomial degree of each factor. */
     template <typename VariableType,
-- 
2.43.0


From eee123220402de5d00c6847f460ab485e1384328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:57 +0000
Subject: [PATCH 41/41] fix: a run-time unary expression can be constructed
 from a compile-time constant

---
 viennamath/runtime/unary_expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 4657c16..374c2cb 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -75,8 +75,8 @@ namespace viennamath
                                                                       op_(new op_unary_id_type()) {}
 
       template <long value>
-      explicit rt_unary_expr(ct_constant<value> const & other) : expr_(other.clone()),
-                                                              op_(new op_unary_id_type()) {}
+      explicit rt_unary_expr(ct_constant<value> const & /*other*/) : expr_(new rt_constant<numeric_type, InterfaceType>(value)),
+                                                                    op_(new op_unary_id_type()) {}
 
       //Copy CTOR:
       rt_unary_expr(rt_unary_expr const & other) : expr_(other.expr_->clone()),
-- 
2.43.0

