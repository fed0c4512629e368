From 5f8ec7dffe97b9b929d1d1ab4b4d9bdd185af04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 01/23] fix: do not truncate the quotient of two compile-time
 defined integral values

---
 cpp/include/gatl/ga/core/expression.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 824a7fb..2bd6d99 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1071,7 +1071,12 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
+                if constexpr (is_constant_expression_v<LeftArgument> && is_constant_expression_v<RightArgument>) {
+                    return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
+                }
+                else {
+                    return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
+                }
             }
 
             static_assert(!is_any_v<constant_value<0>, LeftArgument>, "The argument ga::detail::constant_value<0> is invalid.");
-- 
2.43.0


From 3768a02ffa891de06395eaaed45cdc32f7ebf747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 02/23] fix: evaluate ternary conditionals with constant
 branches and stop using the true branch in place of the false one

---
 cpp/include/gatl/ga/core/expression.hpp        | 13 ++++++++++++-
 cpp/include/gatl/ga/core/expression_traits.hpp | 10 ++++++++++
 cpp/include/gatl/ga/core/lazy_context.hpp      |  4 ++--
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 2bd6d99..df1aed3 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -797,6 +797,17 @@ namespace ga {
             std::false_type { // simplify
         };
 
+        // Helper function for evaluating the arguments of the ternary conditional operation, since std::true_type and std::false_type have no eval() function.
+        template<tag_t LowerTag, tag_t UpperTag, typename Argument, typename... InputTypes>
+        GA_ALWAYS_INLINE constexpr decltype(auto) _if_else_eval_argument([[maybe_unused]] std::tuple<InputTypes...> const &args) {
+            if constexpr (std::is_same_v<Argument, std::true_type> || std::is_same_v<Argument, std::false_type>) {
+                return bool(Argument::value);
+            }
+            else {
+                return Argument::template eval<LowerTag, UpperTag>(args);
+            }
+        }
+
         // Specializations of if_else<Test, TrueValue, FalseValue>.
         template<typename Test, typename TrueValue, typename FalseValue>
         struct function<name_t::if_else, Test, TrueValue, FalseValue> {
@@ -808,7 +819,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return Test::template eval<LowerTag, UpperTag>(args) ? TrueValue::template eval<LowerTag, UpperTag>(args) : FalseValue::template eval<LowerTag, UpperTag>(args);
+                return Test::template eval<LowerTag, UpperTag>(args) ? _if_else_eval_argument<LowerTag, UpperTag, TrueValue>(args) : _if_else_eval_argument<LowerTag, UpperTag, FalseValue>(args);
             }
         };
 
diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index b7edfcc..f639f0b 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -42,6 +42,11 @@ namespace ga {
             std::true_type {
         };
 
+        template<bool Value>
+        struct can_be_stored<std::bool_constant<Value> > :
+            std::true_type {
+        };
+
         template<>
         struct can_be_stored<stored_value> :
             std::true_type {
@@ -98,6 +103,11 @@ namespace ga {
             std::true_type {
         };
 
+        template<bool Value>
+        struct is_constant_expression<std::bool_constant<Value> > :
+            std::true_type {
+        };
+
         template<bitset_t Bitset>
         struct is_constant_expression<constant_bitset<Bitset> > :
             std::true_type {
diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 3ef7987..c75c600 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -462,9 +462,9 @@ namespace ga {
         template<tag_t LowerTag, tag_t UpperTag, typename Test, typename TrueValue, typename FalseValue>
         struct eval_clifford_expression<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> > :
             std::conditional_t<
-                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> >,
+                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, FalseValue> >,
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, TrueValue> >, Test, TrueValue, FalseValue>
+                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, FalseValue> >, Test, TrueValue, FalseValue>
             > {
         };
         
-- 
2.43.0


From d14101ddd2b77b0927b888639dc1f7412d9f18b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 03/23] fix: do not take two different constant expressions for
 different values

---
 cpp/include/gatl/ga/core/expression.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index df1aed3..4a20eb4 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -653,11 +653,7 @@ namespace ga {
             using type = std::conditional_t<
                 std::is_same_v<LeftType, RightType> && !has_stored_entries_v<LeftType>,
                 std::true_type, // simplify
-                std::conditional_t<
-                    !std::is_same_v<LeftType, RightType> && is_constant_expression_v<LeftType> && is_constant_expression_v<RightType>,
-                    std::false_type, // simplify
-                    function // default
-                >
+                function // default
             >;
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
@@ -666,6 +662,16 @@ namespace ga {
             }
         };
 
+        template<default_integral_t LeftValue, default_integral_t RightValue>
+        struct function<name_t::equal, constant_value<LeftValue>, constant_value<RightValue> > :
+            std::bool_constant<(LeftValue == RightValue)> { // simplify
+        };
+
+        template<bitset_t LeftBitset, bitset_t RightBitset>
+        struct function<name_t::equal, constant_bitset<LeftBitset>, constant_bitset<RightBitset> > :
+            std::bool_constant<(LeftBitset == RightBitset)> { // simplify
+        };
+
         // Specializations of less_or_equal<LeftType, RightType>.
         template<typename LeftType, typename RightType>
         struct function<name_t::less_or_equal, LeftType, RightType> {
-- 
2.43.0


From 441abef5b38d03841f8fb79d074f4b2c0493078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 04/23] fix: keep the tolerance alive while the lazy context
 that refers to it is evaluated

---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 3 ++-
 cpp/include/gatl/ga/extra/delta_product.hpp     | 3 ++-
 cpp/include/gatl/ga/extra/grade.hpp             | 6 ++++--
 cpp/include/gatl/ga/extra/take_grade.hpp        | 3 ++-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index 7386055..f9faceb 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -66,7 +66,8 @@ namespace ga {
             >
         >;
 
-        lazy_context_type const lazy = make_lazy_context(arg, scalar(tol));
+        auto const tolerance = scalar(tol); // the lazy context keeps a reference to it
+        lazy_context_type const lazy = make_lazy_context(arg, tolerance);
         return lazy.eval(clifford_expression<default_integral_t, result_expression>());
     }
 
diff --git a/cpp/include/gatl/ga/extra/delta_product.hpp b/cpp/include/gatl/ga/extra/delta_product.hpp
index 97f5998..1df287a 100644
--- a/cpp/include/gatl/ga/extra/delta_product.hpp
+++ b/cpp/include/gatl/ga/extra/delta_product.hpp
@@ -28,7 +28,8 @@ namespace ga {
 
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType, typename MetricSpaceType>
     constexpr decltype(auto) dp(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, ToleranceType const &tol, metric_space<MetricSpaceType> const &mtr) GA_NOEXCEPT {
-        auto [lazy, lhs_, rhs_, tol_] = make_lazy_context_tuple(lhs, rhs, scalar(tol));
+        auto const tolerance = scalar(tol); // the lazy context keeps a reference to it
+        auto [lazy, lhs_, rhs_, tol_] = make_lazy_context_tuple(lhs, rhs, tolerance);
         return lazy.eval(take_largest_grade(gp(lhs_, rhs_, mtr), tol_));
     }
 
diff --git a/cpp/include/gatl/ga/extra/grade.hpp b/cpp/include/gatl/ga/extra/grade.hpp
index e659b71..aa54d97 100644
--- a/cpp/include/gatl/ga/extra/grade.hpp
+++ b/cpp/include/gatl/ga/extra/grade.hpp
@@ -241,7 +241,8 @@ namespace ga {
     // Returns the ga::grade_result<Value> structure representing the grade of the given Clifford expression.
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr decltype(auto) grade(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT {
-        auto lazy = make_lazy_context(arg, scalar(tol));
+        auto const tolerance = scalar(tol); // the lazy context keeps a reference to it
+        auto lazy = make_lazy_context(arg, tolerance);
         return detail::make_grade_result(lazy.eval(scalar_clifford_expression<grade_t, detail::deduce_grade_result_t<typename decltype(lazy)::template argument_expression_t<0>, detail::coefficient_t<typename decltype(lazy)::template argument_expression_t<1> > > >()));
     }
 
@@ -263,7 +264,8 @@ namespace ga {
     // Returns a scalar expression with the largest grade part of a given Clifford expression such that it is not zero.
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr decltype(auto) largest_grade(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT {
-        auto lazy = make_lazy_context(arg, scalar(tol));
+        auto const tolerance = scalar(tol); // the lazy context keeps a reference to it
+        auto lazy = make_lazy_context(arg, tolerance);
         return lazy.eval(scalar_clifford_expression<grade_t, detail::deduce_largest_grade_result_t<typename decltype(lazy)::template argument_expression_t<0>, detail::coefficient_t<typename decltype(lazy)::template argument_expression_t<1> > > >());
     }
 
diff --git a/cpp/include/gatl/ga/extra/take_grade.hpp b/cpp/include/gatl/ga/extra/take_grade.hpp
index 614ec40..825e7f1 100644
--- a/cpp/include/gatl/ga/extra/take_grade.hpp
+++ b/cpp/include/gatl/ga/extra/take_grade.hpp
@@ -107,7 +107,8 @@ namespace ga {
     // Returns the portion of the given Clifford expression with the largest grade.
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr decltype(auto) take_largest_grade(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT {
-        auto [lazy, arg_, tol_] = make_lazy_context_tuple(arg, scalar(tol));
+        auto const tolerance = scalar(tol); // the lazy context keeps a reference to it
+        auto [lazy, arg_, tol_] = make_lazy_context_tuple(arg, tolerance);
         return lazy.eval(take_grade(arg_, largest_grade(arg_, tol_)));
     }
 
-- 
2.43.0


From b12ff70ac519fd32ecd15968f8d88b3e6fe2ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 05/23] fix: merge and distribute powers only where the base
 keeps its sign

---
 .../core/expression_simplification_power.hpp  | 48 +++++++++++++++++--
 .../gatl/ga/core/expression_traits.hpp        |  2 +-
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 68cef52..95cd91e 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -59,6 +59,13 @@ namespace ga {
         template<default_integral_t Value>
         using simpler_isqrt_t = typename simpler_isqrt<Value>::type;
 
+        // Returns whether the given expression is a compile-time defined integral value.
+        template<typename Expression>
+        constexpr bool is_integer_constant_v = false;
+
+        template<default_integral_t Value>
+        constexpr bool is_integer_constant_v<constant_value<Value> > = true;
+
         /**
         // Specializations of _power_level2<LeftArgument, RightArgument>.
         template<typename LeftExpression, typename RightExpression>
@@ -316,7 +323,17 @@ namespace ga {
                 using type = power<LeftExpression, RightExpression>;
             };
 
-            // (A * ...)^{B} => A^{B} * (...)^{C}
+            // (A * ...)^{B} => A^{B} * (...)^{B}, when B is integer, A is a positive constant, or all the factors are non-negative (otherwise, bind)
+            template<bool Distribute, typename LeftArgument, typename RightExpression, typename... LeftNextArguments>
+            struct distribute_over_product {
+                using type = power<mul<LeftArgument, LeftNextArguments...>, RightExpression>;
+            };
+
+            template<typename LeftArgument, typename RightExpression, typename... LeftNextArguments>
+            struct distribute_over_product<true, LeftArgument, RightExpression, LeftNextArguments...> {
+                using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
+            };
+
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct condition<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
                 std::true_type {
@@ -324,10 +341,28 @@ namespace ga {
 
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct result<mul<LeftArgument, LeftNextArguments...>, RightExpression> {
-                using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
+                using type = typename distribute_over_product<
+                    is_integer_constant_v<RightExpression> || is_non_negative_v<mul<LeftArgument, LeftNextArguments...> > || (is_constant_expression_v<LeftArgument> && is_non_negative_v<LeftArgument>),
+                    LeftArgument, RightExpression, LeftNextArguments...
+                >::type;
+            };
+
+            // (A^{B})^{C} => A^{B * C}, when C is integer or A is non-negative, and |A|^{B * C}, when B is even (otherwise, bind)
+            template<bool Simplify, bool EvenExponent, typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
+            struct power_of_power {
+                using type = power<power<LeftLeftArgument, LeftRightArgument>, RightExpression>;
+            };
+
+            template<bool EvenExponent, typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
+            struct power_of_power<true, EvenExponent, LeftLeftArgument, LeftRightArgument, RightExpression> {
+                using type = power_t<LeftLeftArgument, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+            };
+
+            template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
+            struct power_of_power<false, true, LeftLeftArgument, LeftRightArgument, RightExpression> {
+                using type = power_t<absolute_t<LeftLeftArgument>, product_t<LeftRightArgument, RightExpression, value_mapping> >;
             };
 
-            // (A^{B})^{C} = A^{B * C} (simplify)
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct condition<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
                 std::true_type {
@@ -335,8 +370,13 @@ namespace ga {
 
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> {
-                using type = power_t<LeftLeftArgument, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+                using type = typename power_of_power<
+                    is_integer_constant_v<RightExpression> || is_non_negative_v<LeftLeftArgument>,
+                    is_integer_constant_v<LeftRightArgument> && is_even_v<LeftRightArgument>,
+                    LeftLeftArgument, LeftRightArgument, RightExpression
+                >::type;
             };
+
         };
 
         // Implementation of _power<LeftArgument, RightArgument> with values as argument.
diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index f639f0b..b60c5aa 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -354,7 +354,7 @@ namespace ga {
 
         template<typename LeftBitset, typename RightBitset>
         struct is_non_negative<reordering_sign<LeftBitset, RightBitset> > :
-            std::true_type {
+            std::false_type {
         };
 
         template<typename Bitset>
-- 
2.43.0


From 4d308aa6ad189f7de31de854f3cb9f653d714121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 06/23] fix: do not negate the absolute value of constant
 expressions of unknown sign

---
 cpp/include/gatl/ga/core/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 4a20eb4..647ce7a 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -846,7 +846,7 @@ namespace ga {
                 is_non_negative_v<Value>,
                 Value,
                 std::conditional_t<
-                    is_constant_expression_v<Value> && !(is_function_v<name_t::add, Value> || is_function_v<name_t::if_else, Value>),
+                    is_constant_expression_v<Value> && is_non_negative_v<product_t<constant_value<-1>, Value, value_mapping> >,
                     product_t<constant_value<-1>, Value, value_mapping>,
                     function
                 >
-- 
2.43.0


From dc8d51eef959f18c80046f2514e11a2d7f77e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 07/23] fix: accept quotients of negative constants that reduce
 to a unit numerator

---
 .../ga/core/expression_simplification_product_values.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
index 4d2d10e..2e1a316 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
@@ -36,7 +36,11 @@ namespace ga {
 
         template<default_integral_t Numerator, default_integral_t Denominator>
         struct simpler_rational_constant<Numerator, Denominator, 1> {
-            using type = mul_t<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >;
+            using type = typename std::conditional_t<
+                (sign(Numerator) * sign(Denominator)) * iabs(Numerator) == 1,
+                identity<power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >, // 1 is not allowed as factor
+                mul<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >
+            >::type;
         };
 
         template<default_integral_t Numerator, default_integral_t Denominator>
-- 
2.43.0


From 5ca85c35bc2fd8929b65e9f0b967d75cdb6f0d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 08/23] fix: let lazy evaluation keep the values that an
 expression stores itself

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index c75c600..610c62c 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -659,7 +659,15 @@ namespace ga {
 
         template<typename CoefficientType, typename Expression>
         constexpr decltype(auto) eval(clifford_expression<CoefficientType, Expression> const &expression) const {
-            return detail::eval<base_id + 1, base_id + (detail::tag_t)super::stored_inputs_count()>(expression, super::stored_inputs_tuple());
+            constexpr detail::tag_t upper_id = base_id + (detail::tag_t)super::stored_inputs_count();
+            if constexpr (detail::has_stored_entries_v<Expression> && detail::greater_id_v<Expression> <= upper_id) {
+                // The expression itself provides the values and bitsets that it stores.
+                using tagged_expression_type = clifford_expression<CoefficientType, detail::tag_variables_t<Expression, upper_id + 1, 0, 0, 0> >;
+                return detail::eval<base_id + 1, upper_id + 1>(tagged_expression_type(), std::tuple_cat(super::stored_inputs_tuple(), std::tie(expression)));
+            }
+            else {
+                return detail::eval<base_id + 1, upper_id>(expression, super::stored_inputs_tuple());
+            }
         }
 
     private:
-- 
2.43.0


From 2a88be88251a94879e679a7bd026b16c164b643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 09/23] fix: accept blades that square to zero as arguments of
 the exponential

---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index f9faceb..3ed87dd 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -36,6 +36,7 @@ namespace ga {
         using signed_squared_alpha_value = detail::coefficient_t<detail::product_t<blade_expression, blade_expression, detail::metric_space_mapping_t<MetricSpaceType, detail::sp_mapping> > >;
         using squared_alpha_value = detail::absolute_t<signed_squared_alpha_value>;
         using alpha_value = detail::power_t<squared_alpha_value, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
+        using divisor_value = std::conditional_t<std::is_same_v<alpha_value, detail::constant_value<0> >, detail::constant_value<1>, alpha_value>; // the division is not evaluated when the blade squares to zero
 
         using scalar_coefficient_value = detail::if_else_t<
             detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
@@ -52,8 +53,8 @@ namespace ga {
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
-                detail::product_t<detail::sine_t<alpha_value>, detail::power_t<alpha_value, detail::constant_value<-1> >, detail::value_mapping>,
-                detail::product_t<detail::hyperbolic_sine_t<alpha_value>, detail::power_t<alpha_value, detail::constant_value<-1> >, detail::value_mapping>
+                detail::product_t<detail::sine_t<alpha_value>, detail::power_t<divisor_value, detail::constant_value<-1> >, detail::value_mapping>,
+                detail::product_t<detail::hyperbolic_sine_t<alpha_value>, detail::power_t<divisor_value, detail::constant_value<-1> >, detail::value_mapping>
             >
         >;
 
-- 
2.43.0


From f3d73b21255c8ba2adfe365d602733b3313ab229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 10/23] fix: do not merge values that are stored by partially
 evaluated lazy expressions

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 45 ++++++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 610c62c..a0650c6 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -280,6 +280,41 @@ namespace ga {
             }
         };
 
+        // Combines two evaluated arguments of a function as they are, i.e., without simplification.
+        template<name_t Name, typename LeftArgument, typename RightArgument>
+        struct _eval_combine {
+            using type = typename function<Name, LeftArgument, RightArgument>::type;
+        };
+
+        template<name_t Name, typename LeftArgument, typename... RightArguments>
+        struct _eval_combine<Name, LeftArgument, function<Name, RightArguments...> > {
+            using type = typename function<Name, LeftArgument, RightArguments...>::type;
+        };
+
+        // Simplification may take different stored entries for the same value. Hence, it is not performed on values having stored entries.
+        template<typename LeftArgument, typename RightArgument>
+        constexpr bool _eval_simplify_v = !(has_stored_entries_v<LeftArgument> || has_stored_entries_v<RightArgument>) || is_any_v<LeftArgument, constant_value<0>, constant_value<1> > || is_any_v<RightArgument, constant_value<0>, constant_value<1> >;
+
+        template<typename LeftArgument, typename RightArgument>
+        struct _eval_addition :
+            std::conditional_t<_eval_simplify_v<LeftArgument, RightArgument>, _addition<LeftArgument, RightArgument>, _eval_combine<name_t::add, LeftArgument, RightArgument> > {
+        };
+
+        template<typename Coefficient, typename BasisBlade, typename RightArgument>
+        struct _eval_addition<component<Coefficient, BasisBlade>, RightArgument> :
+            _addition<component<Coefficient, BasisBlade>, RightArgument> {
+        };
+
+        template<typename LeftArgument, typename RightArgument>
+        struct _eval_product :
+            std::conditional_t<_eval_simplify_v<LeftArgument, RightArgument>, _product<LeftArgument, RightArgument, value_mapping>, _eval_combine<name_t::mul, LeftArgument, RightArgument> > {
+        };
+
+        template<typename LeftArgument, typename RightArgument>
+        struct _eval_power :
+            std::conditional_t<_eval_simplify_v<LeftArgument, RightArgument>, _power<LeftArgument, RightArgument>, power<LeftArgument, RightArgument> > {
+        };
+
         template<tag_t LowerTag, tag_t UpperTag, typename Expression>
         struct eval_clifford_expression : _eval_clifford_expression_do_nothing<Expression> {
         };
@@ -364,7 +399,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, Argument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Argument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> >, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<Argument, NextArguments...> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >, Argument, add_t<NextArguments...> >
+                _eval_clifford_expression_move<LowerTag, UpperTag, typename _eval_addition<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >::type, Argument, add_t<NextArguments...> >
             > {
         };
 
@@ -374,7 +409,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, LeftArgument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, RightArgument> >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, LeftArgument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, RightArgument>, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<LeftArgument, RightArgument> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
+                _eval_clifford_expression_move<LowerTag, UpperTag, typename _eval_addition<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >::type, LeftArgument, RightArgument>
             > {
         };
 
@@ -384,7 +419,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, Argument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, mul_t<NextArguments...> > >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Argument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, mul_t<NextArguments...> >, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, mul<Argument, NextArguments...> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, product_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, mul_t<NextArguments...> >, value_mapping>, Argument, mul_t<NextArguments...> >
+                _eval_clifford_expression_move<LowerTag, UpperTag, typename _eval_product<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, mul_t<NextArguments...> > >::type, Argument, mul_t<NextArguments...> >
             > {
         };
 
@@ -394,7 +429,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, LeftArgument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, RightArgument> >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, LeftArgument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, RightArgument>, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, mul<LeftArgument, RightArgument> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, product_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument>, value_mapping>, LeftArgument, RightArgument>
+                _eval_clifford_expression_move<LowerTag, UpperTag, typename _eval_product<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >::type, LeftArgument, RightArgument>
             > {
         };
 
@@ -404,7 +439,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, LeftArgument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, RightArgument> >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, LeftArgument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, RightArgument>, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, power<LeftArgument, RightArgument> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, power_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
+                _eval_clifford_expression_move<LowerTag, UpperTag, typename _eval_power<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >::type, LeftArgument, RightArgument>
             > {
         };
 
-- 
2.43.0


From 6267dca3d06921326ac82e81e6debc09fcf327a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 11/23] fix: tell metric spaces from tolerances in the delta
 product with scalars

---
 cpp/include/gatl/ga/core/metric_space.hpp   | 11 ++++++++++-
 cpp/include/gatl/ga/extra/delta_product.hpp |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/metric_space.hpp b/cpp/include/gatl/ga/core/metric_space.hpp
index f6e6d75..748ade2 100644
--- a/cpp/include/gatl/ga/core/metric_space.hpp
+++ b/cpp/include/gatl/ga/core/metric_space.hpp
@@ -70,10 +70,19 @@ namespace ga {
         std::bool_constant<is_general_metric_space_v<MetricSpaceType> > {
     };
 
+    namespace detail {
+
+        template<typename MetricSpaceType>
+        std::true_type _is_metric_space(metric_space<MetricSpaceType> const *);
+
+        std::false_type _is_metric_space(void const *);
+
+    }
+
     // Returns whether the given type is a metric space type.
     template<typename Type>
     struct is_metric_space :
-        std::bool_constant<is_orthogonal_metric_space_v<Type> || is_general_metric_space_v<Type> > {
+        decltype(detail::_is_metric_space(std::declval<Type const *>())) {
     };
 
     template<typename Type>
diff --git a/cpp/include/gatl/ga/extra/delta_product.hpp b/cpp/include/gatl/ga/extra/delta_product.hpp
index 1df287a..c7e77f2 100644
--- a/cpp/include/gatl/ga/extra/delta_product.hpp
+++ b/cpp/include/gatl/ga/extra/delta_product.hpp
@@ -98,7 +98,7 @@ namespace ga {
         return dp(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), detail::real_metric_space());
     }
 
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType> > = 0>
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType>, int> = 0>
     constexpr decltype(auto) dp(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, RightType const &rhs, metric_space<MetricSpaceType> const &) GA_NOEXCEPT {
         return dp(lhs, scalar(rhs), default_tolerance<std::common_type_t<LeftCoefficientType, RightType> >(), detail::real_metric_space());
     }
-- 
2.43.0


From 21f59866b3c41b5d1e1021ffc5b72d385879e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 12/23] fix: a power is an even value only when its base is and
 its exponent is a positive integer

---
 cpp/include/gatl/ga/core/expression_traits.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index b60c5aa..1a0f366 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -302,7 +302,12 @@ namespace ga {
 
         template<typename LeftArgument, typename RightArgument>
         struct is_even<power<LeftArgument, RightArgument> > :
-            std::bool_constant<is_even_v<RightArgument> > {
+            std::false_type {
+        };
+
+        template<typename LeftArgument, default_integral_t RightValue>
+        struct is_even<power<LeftArgument, constant_value<RightValue> > > :
+            std::bool_constant<(RightValue > 0) && is_even_v<LeftArgument> > {
         };
 
         template<typename... Arguments>
-- 
2.43.0


From c41081cb757f396102cede86250834832737458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 13/23] fix: do not let nearly or exactly dependent projections
 collapse the meet and the join

---
 cpp/include/gatl/ga/extra/meet_and_join.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/meet_and_join.hpp b/cpp/include/gatl/ga/extra/meet_and_join.hpp
index 9c5e98a..a0639b6 100644
--- a/cpp/include/gatl/ga/extra/meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/meet_and_join.hpp
@@ -86,8 +86,9 @@ namespace ga {
                     auto const d = project_vector(f, dual_delta, inv_dual_delta); // dual delta factor
 
                     auto const p = project_vector(d, lhs, inv_lhs); // projection
-                    if (!is_zero(p, tol)) {
-                        checked_trivial_copy(op(meet, p, em), meet, tol);
+                    auto const next_meet = op(meet, p, em);
+                    if (!is_zero(next_meet, tol)) {
+                        checked_trivial_copy(next_meet, meet, tol);
                         ++current_grade_meet;
                         if (current_grade_meet == grade_meet) {
                             trivial_copy(op(rcont(lhs, inv(meet, em), em), rhs, em), join);
@@ -97,8 +98,9 @@ namespace ga {
                     }
 
                     auto const r = d - p; // rejection
-                    if (!is_zero(r, tol)) {
-                        checked_trivial_copy(lcont(r, join, em), join, tol);
+                    auto const next_join = lcont(r, join, em);
+                    if (!is_zero(next_join, tol)) {
+                        checked_trivial_copy(next_join, join, tol);
                         --current_grade_join;
                         if (current_grade_join == grade_join) {
                             trivial_copy(lcont(lcont(rhs, inv(join, em), em), lhs, em), meet);
-- 
2.43.0


From 7c034fa2bbae0ae5fa38dedf8b436a1a444c6f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 14/23] fix: call undual with the pseudoscalar in the
 directions of dual flats, rounds and tangents

---
 cpp/include/gatl/ga/model/conformal/flat_direction.hpp          | 2 +-
 cpp/include/gatl/ga/model/conformal/round_direction.hpp         | 2 +-
 cpp/include/gatl/ga/model/conformal/tangent_direction.hpp       | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp   | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp  | 2 +-
 .../gatl/ga/model/signed/minkowski/tangent_direction.hpp        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
index 8af2834..e826a60 100644
--- a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/conformal/round_direction.hpp b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
index 8909c0f..841b729 100644
--- a/cpp/include/gatl/ga/model/conformal/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
index 1e5c3bb..c4a9e49 100644
--- a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
index 8eb7eff..59135b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
index e81c864..9a12ba8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
index 1c8c4f0..a8fece8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
-- 
2.43.0


From be4a42adbeaf48601030defcf7fbc6f392f763b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 15/23] fix: let the exception of a failed checked copy leave
 the converting constructors

---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 4 ++--
 cpp/include/gatl/ga/core/trivial_copy.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 63f2af0..21838b9 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -697,10 +697,10 @@ namespace ga {
         constexpr clifford_expression(clifford_expression &&) = default;
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other);
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other);
 
         template<typename... StorageTypes>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index d47356a..c0ee97d 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -478,7 +478,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the copy constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
@@ -486,7 +486,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the moving constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
-- 
2.43.0


From 7dd2a25c75524b22ee6a36f31ed90f89b2dd2275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 16/23] fix: let the exceptions of the visitors leave
 for_each_component and for_each_basis_vector

The specifier asked whether naming the visitor can throw, which it never does, so
any exception thrown by a visitor ended the program.
---
 cpp/include/gatl/ga/util/for_each_basis_vector.hpp |  6 +++---
 cpp/include/gatl/ga/util/for_each_component.hpp    | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cpp/include/gatl/ga/util/for_each_basis_vector.hpp b/cpp/include/gatl/ga/util/for_each_basis_vector.hpp
index e875c9a..38756d8 100644
--- a/cpp/include/gatl/ga/util/for_each_basis_vector.hpp
+++ b/cpp/include/gatl/ga/util/for_each_basis_vector.hpp
@@ -28,7 +28,7 @@ namespace ga {
 
     // Applies the given function object f to the result of dereferencing every basis vector in the given instance of ga::clifford_expression<CoefficientType, Expression> comprised by a single scaled basis blade or bitset. The list of parameters of the function is: ga::index_t const index, bool &keep_going. The keep_going parameter is always initialized to true.
     template<typename Function>
-    inline bool for_each_basis_vector(bitset_t arg, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_basis_vector(bitset_t arg, Function f) {
         bool keep_going = true;
         while (arg != bitset_t(0) && keep_going) {
             bitset_t const current_set_bit = detail::rightmost_set_bit(arg);
@@ -39,13 +39,13 @@ namespace ga {
     };
 
     template<typename CoefficientType, typename Coefficient, bitset_t BasisVectors, typename Function>
-    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::constant_basis_blade<BasisVectors> > > const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::constant_basis_blade<BasisVectors> > > const &, Function f) {
         static_assert(detail::can_be_stored_v<Coefficient>, "The ga::for_each_basis_vector() function does not allow lazy evaluation with arguments from a lazy context.");
         return for_each_basis_vector(BasisVectors, f);
     };
 
     template<typename CoefficientType, typename Coefficient, bitset_t PossibleGrades, typename Function>
-    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::dynamic_basis_blade<PossibleGrades, detail::stored_bitset> > > const &arg, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::dynamic_basis_blade<PossibleGrades, detail::stored_bitset> > > const &arg, Function f) {
         static_assert(detail::can_be_stored_v<Coefficient>, "The ga::for_each_basis_vector() function does not allow lazy evaluation with arguments from a lazy context.");
         return for_each_basis_vector(*arg.bitsets().cbegin(), f);
     };
diff --git a/cpp/include/gatl/ga/util/for_each_component.hpp b/cpp/include/gatl/ga/util/for_each_component.hpp
index d4f9edf..1016b6b 100644
--- a/cpp/include/gatl/ga/util/for_each_component.hpp
+++ b/cpp/include/gatl/ga/util/for_each_component.hpp
@@ -41,7 +41,7 @@ namespace ga {
         template<typename ValueType, typename Coefficient, typename BasisBlade, typename... NextComponents>
         struct _for_each_component_impl<ValueType, add<component<Coefficient, BasisBlade>, NextComponents...> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, Function f) {
                 return _for_each_component_impl_inner_iteration<ValueType, Coefficient, BasisBlade>::run(value_citr, bitset_citr, map_citr, f)
                     && _for_each_component_impl<ValueType, add_t<NextComponents...> >::run(value_citr, bitset_citr, map_citr, f);
             }
@@ -57,7 +57,7 @@ namespace ga {
             static_assert(can_be_stored_v<Coefficient>, "The ga::for_each_component() function does not allow lazy evaluation with arguments from a lazy context.");
 
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(BasisVectors, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 return keep_going;
@@ -67,7 +67,7 @@ namespace ga {
         template<typename ValueType, bitset_t BasisVectors>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_value, constant_basis_blade<BasisVectors> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(BasisVectors, *value_citr, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, keep_going);
                 ++value_citr;
@@ -80,7 +80,7 @@ namespace ga {
             static_assert(can_be_stored_v<Coefficient>, "The ga::for_each_component() function does not allow lazy evaluation with arguments from a lazy context.");
 
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(*bitset_citr, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 ++bitset_citr;
@@ -91,7 +91,7 @@ namespace ga {
         template<typename ValueType, bitset_t PossibleGrades>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_value, dynamic_basis_blade<PossibleGrades, stored_bitset> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(*bitset_citr, *value_citr, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, keep_going);
                 ++value_citr;
@@ -103,7 +103,7 @@ namespace ga {
         template<typename ValueType, bitset_t PossibleGrades>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_map_values, dynamic_basis_blade<PossibleGrades, stored_map_bitsets> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, Function f) {
                 bool keep_going = true;
                 for (auto const &pair : *map_citr) {
                     f(pair.first, pair.second, entry_source_t::MAPPED_RUNTIME_DEFINED_ENTRY, entry_source_t::MAPPED_RUNTIME_DEFINED_ENTRY, keep_going);
@@ -120,7 +120,7 @@ namespace ga {
 
     // Applies the given function object f to the result of dereferencing every component in the given instance of ga::clifford_expression<CoefficientType, Expression>. The list of parameters of the function is: bitset_t const basis_vectors, CoefficientType const &value, ga::entry_source_t const basis_vectors_source, ga::entry_source_t const value_source, bool &keep_going. The keep_going parameter is always initialized to true. This function does not allow lazy evaluation with arguments from a lazy context.
     template<typename CoefficientType, typename Expression, typename Function>
-    inline bool for_each_component(clifford_expression<CoefficientType, Expression> const &arg, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_component(clifford_expression<CoefficientType, Expression> const &arg, Function f) {
         static_assert(detail::can_be_stored_v<Expression>, "This function does not expect lazy expressions.");
         auto value_citr = arg.values().cbegin();
         auto bitset_citr = arg.bitsets().cbegin();
-- 
2.43.0


From 7b224458a9b4ebcdaff79a57b5a3a6a18d49ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 17/23] fix: end the static assertions on user-defined default
 tolerances

Defining GA_DEFAULT_FLT_TOLERANCE or GA_DEFAULT_DBL_TOLERANCE did not compile.
---
 cpp/include/gatl/ga/core/default_tolerance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/default_tolerance.hpp b/cpp/include/gatl/ga/core/default_tolerance.hpp
index cfbf2c2..d0963eb 100644
--- a/cpp/include/gatl/ga/core/default_tolerance.hpp
+++ b/cpp/include/gatl/ga/core/default_tolerance.hpp
@@ -27,13 +27,13 @@
 #ifndef GA_DEFAULT_FLT_TOLERANCE
     #define GA_DEFAULT_FLT_TOLERANCE 1.0e-8f
 #else
-    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_FLT_TOLERANCE
 
 #ifndef GA_DEFAULT_DBL_TOLERANCE
     #define GA_DEFAULT_DBL_TOLERANCE 1.0e-8
 #else
-    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_DBL_TOLERANCE
 
 namespace ga {
-- 
2.43.0


From 7bfdb2f31770a348f63f3a36006f879b4b8bf309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 18/23] fix: copy run-time basis blades to types with more
 possible grades

---
 cpp/include/gatl/ga/core/trivial_copy.hpp | 39 +++++++++++++----------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index c0ee97d..e7511ef 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -46,6 +46,13 @@ namespace ga {
             static_assert(!RuntimeCheck && std::is_same_v<InputExpression, std::nullptr_t>, "Non-trivial ga:trivial_copy() operation.");
         };
 
+        // Whether the input component of a given basis blade is copied to the resulting component of another one.
+        template<typename InputBasisBlade, typename ResultBasisBlade>
+        constexpr bool _trivial_match_v = eq_v<InputBasisBlade, ResultBasisBlade>;
+
+        template<bitset_t InputPossibleGrades, bitset_t ResultPossibleGrades>
+        constexpr bool _trivial_match_v<dynamic_basis_blade<InputPossibleGrades, stored_bitset>, dynamic_basis_blade<ResultPossibleGrades, stored_bitset> > = (InputPossibleGrades & ResultPossibleGrades) == InputPossibleGrades;
+
         template<bool RuntimeCheck, typename InputExpression, typename ResultExpression>
         struct _trivial_assign_and_advance_both;
 
@@ -66,97 +73,97 @@ namespace ga {
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename... NextInputArguments, typename ResultCoefficient, typename ResultBasisBlade, typename... NextResultArguments>
         struct _trivial_copy<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...>,
-            std::enable_if_t<eq_v<InputBasisBlade, ResultBasisBlade> > > :
+            std::enable_if_t<_trivial_match_v<InputBasisBlade, ResultBasisBlade> > > :
             _trivial_assign_and_advance_both<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename... NextInputArguments, typename ResultCoefficient, typename ResultBasisBlade>
         struct _trivial_copy<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, component<ResultCoefficient, ResultBasisBlade>,
-            std::enable_if_t<eq_v<InputBasisBlade, ResultBasisBlade> > > :
+            std::enable_if_t<_trivial_match_v<InputBasisBlade, ResultBasisBlade> > > :
             _trivial_assign_and_advance_both<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, component<ResultCoefficient, ResultBasisBlade> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename ResultCoefficient, typename ResultBasisBlade, typename... NextResultArguments>
         struct _trivial_copy<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...>,
-            std::enable_if_t<eq_v<InputBasisBlade, ResultBasisBlade> > > :
+            std::enable_if_t<_trivial_match_v<InputBasisBlade, ResultBasisBlade> > > :
             _trivial_assign_and_advance_both<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename ResultCoefficient, typename ResultBasisBlade>
         struct _trivial_copy<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade>,
-            std::enable_if_t<eq_v<InputBasisBlade, ResultBasisBlade> > > :
+            std::enable_if_t<_trivial_match_v<InputBasisBlade, ResultBasisBlade> > > :
             _trivial_assign_and_advance_both<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename... NextInputArguments, typename ResultCoefficient, typename ResultBasisBlade, typename... NextResultArguments>
         struct _trivial_copy<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...>,
-            std::enable_if_t<lt_v<ResultBasisBlade, InputBasisBlade> > > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<ResultBasisBlade, InputBasisBlade> > > :
             _trivial_set_zero_and_advance_result<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename... NextInputArguments, typename ResultCoefficient, typename ResultBasisBlade>
         struct _trivial_copy<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, component<ResultCoefficient, ResultBasisBlade>,
-            std::enable_if_t<lt_v<ResultBasisBlade, InputBasisBlade> && !std::is_same_v<ResultCoefficient, constant_value<0> > > > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<ResultBasisBlade, InputBasisBlade> && !std::is_same_v<ResultCoefficient, constant_value<0> > > > :
             _trivial_set_zero_and_advance_result<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, component<ResultCoefficient, ResultBasisBlade> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename... NextInputArguments, typename ResultCoefficient, typename ResultBasisBlade>
         struct _trivial_copy<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, component<ResultCoefficient, ResultBasisBlade>,
-            std::enable_if_t<lt_v<ResultBasisBlade, InputBasisBlade> && std::is_same_v<ResultCoefficient, constant_value<0> > && RuntimeCheck> > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<ResultBasisBlade, InputBasisBlade> && std::is_same_v<ResultCoefficient, constant_value<0> > && RuntimeCheck> > :
             _trivial_check_zero_and_advance_input<add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, component<ResultCoefficient, ResultBasisBlade> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename ResultCoefficient, typename ResultBasisBlade, typename... NextResultArguments>
         struct _trivial_copy<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...>,
-            std::enable_if_t<lt_v<ResultBasisBlade, InputBasisBlade> > > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<ResultBasisBlade, InputBasisBlade> > > :
             _trivial_set_zero_and_advance_result<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename ResultCoefficient, typename ResultBasisBlade>
         struct _trivial_copy<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade>,
-            std::enable_if_t<lt_v<ResultBasisBlade, InputBasisBlade> && !std::is_same_v<ResultCoefficient, constant_value<0> > > > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<ResultBasisBlade, InputBasisBlade> && !std::is_same_v<ResultCoefficient, constant_value<0> > > > :
             _trivial_set_zero_and_advance_result<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename ResultCoefficient, typename ResultBasisBlade>
         struct _trivial_copy<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade>,
-            std::enable_if_t<lt_v<ResultBasisBlade, InputBasisBlade> && std::is_same_v<ResultCoefficient, constant_value<0> > && RuntimeCheck> > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<ResultBasisBlade, InputBasisBlade> && std::is_same_v<ResultCoefficient, constant_value<0> > && RuntimeCheck> > :
             _trivial_check_zero_and_advance_input<component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename... NextInputArguments, typename ResultCoefficient, typename ResultBasisBlade, typename... NextResultArguments>
         struct _trivial_copy<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...>,
-            std::enable_if_t<lt_v<InputBasisBlade, ResultBasisBlade> && RuntimeCheck> > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<InputBasisBlade, ResultBasisBlade> && RuntimeCheck> > :
             _trivial_check_zero_and_advance_input<add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename... NextInputArguments, typename ResultCoefficient, typename ResultBasisBlade>
         struct _trivial_copy<RuntimeCheck, add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, component<ResultCoefficient, ResultBasisBlade>,
-            std::enable_if_t<lt_v<InputBasisBlade, ResultBasisBlade> && RuntimeCheck> > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<InputBasisBlade, ResultBasisBlade> && RuntimeCheck> > :
             _trivial_check_zero_and_advance_input<add<component<InputCoefficient, InputBasisBlade>, NextInputArguments...>, component<ResultCoefficient, ResultBasisBlade> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename ResultCoefficient, typename ResultBasisBlade, typename... NextResultArguments>
         struct _trivial_copy<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...>,
-            std::enable_if_t<lt_v<InputBasisBlade, ResultBasisBlade> && !std::is_same_v<InputCoefficient, constant_value<0> > && RuntimeCheck> > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<InputBasisBlade, ResultBasisBlade> && !std::is_same_v<InputCoefficient, constant_value<0> > && RuntimeCheck> > :
             _trivial_check_zero_and_advance_input<component<InputCoefficient, InputBasisBlade>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename ResultCoefficient, typename ResultBasisBlade, typename... NextResultArguments>
         struct _trivial_copy<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...>,
-            std::enable_if_t<lt_v<InputBasisBlade, ResultBasisBlade> && std::is_same_v<InputCoefficient, constant_value<0> > > > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<InputBasisBlade, ResultBasisBlade> && std::is_same_v<InputCoefficient, constant_value<0> > > > :
             _trivial_set_zero_and_advance_result<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, add<component<ResultCoefficient, ResultBasisBlade>, NextResultArguments...> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename ResultCoefficient, typename ResultBasisBlade>
         struct _trivial_copy<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade>,
-            std::enable_if_t<lt_v<InputBasisBlade, ResultBasisBlade> && !std::is_same_v<InputCoefficient, constant_value<0> > && RuntimeCheck> > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<InputBasisBlade, ResultBasisBlade> && !std::is_same_v<InputCoefficient, constant_value<0> > && RuntimeCheck> > :
             _trivial_check_zero_and_advance_input<component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade> > {
         };
 
         template<bool RuntimeCheck, typename InputCoefficient, typename InputBasisBlade, typename ResultCoefficient, typename ResultBasisBlade>
         struct _trivial_copy<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade>,
-            std::enable_if_t<lt_v<InputBasisBlade, ResultBasisBlade> && std::is_same_v<InputCoefficient, constant_value<0> > > > :
+            std::enable_if_t<!_trivial_match_v<InputBasisBlade, ResultBasisBlade> && lt_v<InputBasisBlade, ResultBasisBlade> && std::is_same_v<InputCoefficient, constant_value<0> > > > :
             _trivial_set_zero_and_advance_result<RuntimeCheck, component<InputCoefficient, InputBasisBlade>, component<ResultCoefficient, ResultBasisBlade> > {
         };
 
-- 
2.43.0


From a4419f157edb5ecb4ca2772da8e544bfff638383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 19/23] fix: visit compile-time fractions with their value
 instead of truncating them

---
 cpp/include/gatl/ga/extra/tests.hpp             |  2 +-
 cpp/include/gatl/ga/util/for_each_component.hpp | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/tests.hpp b/cpp/include/gatl/ga/extra/tests.hpp
index b46c133..77589ad 100644
--- a/cpp/include/gatl/ga/extra/tests.hpp
+++ b/cpp/include/gatl/ga/extra/tests.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr bool is_zero(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) {
         using std::abs;
-        return for_each_component(arg, [&](bitset_t const, CoefficientType const &value, entry_source_t const, entry_source_t const, bool &keep_going) { keep_going = abs(value) <= (CoefficientType)tol; });
+        return for_each_component(arg, [&](bitset_t const, auto const &value, entry_source_t const, entry_source_t const, bool &keep_going) { keep_going = abs(value) <= (std::decay_t<decltype(value)>)tol; });
     }
 
     template<typename CoefficientType, typename Expression>
diff --git a/cpp/include/gatl/ga/util/for_each_component.hpp b/cpp/include/gatl/ga/util/for_each_component.hpp
index 1016b6b..4390320 100644
--- a/cpp/include/gatl/ga/util/for_each_component.hpp
+++ b/cpp/include/gatl/ga/util/for_each_component.hpp
@@ -31,6 +31,12 @@ namespace ga {
 
     namespace detail {
 
+        // Casts a coefficient defined in compile time to the type of the stored ones, unless it would be truncated.
+        template<typename ValueType, typename CoefficientType>
+        GA_ALWAYS_INLINE constexpr decltype(auto) _for_each_component_cast(CoefficientType const &arg) GA_NOEXCEPT {
+            return static_cast<std::conditional_t<std::is_integral_v<ValueType>, CoefficientType, ValueType> >(arg);
+        }
+
         // Implementation of the for_each_component() function.
         template<typename ValueType, typename Expression>
         struct _for_each_component_impl;
@@ -59,7 +65,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) {
                 bool keep_going = true;
-                f(BasisVectors, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(BasisVectors, _for_each_component_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 return keep_going;
             }
         };
@@ -82,7 +88,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) {
                 bool keep_going = true;
-                f(*bitset_citr, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(*bitset_citr, _for_each_component_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 ++bitset_citr;
                 return keep_going;
             }
-- 
2.43.0


From f7197f2ba7b384989b315d96531abd937998ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 20/23] fix: find the rightmost set bit without overflowing a
 signed integer

---
 cpp/include/gatl/ga/core/constexpr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index a72a5db..949d77c 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -90,7 +90,7 @@ namespace ga {
 
         // Returns the rightmost set bit in the given bitset.
         GA_ALWAYS_INLINE constexpr bitset_t rightmost_set_bit(bitset_t const arg) GA_NOEXCEPT {
-            return arg & -std::make_signed_t<bitset_t>(arg);
+            return arg & (bitset_t(0) - arg);
         }
 
         // Returns the index of the set bit, assuming that there is a single set bit in the bitset.
-- 
2.43.0


From 833cb2a45a1cae2141e3da577dd8314ffafdda12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 21/23] fix: store the bitset of a run-time basis vector with
 its own type

---
 cpp/include/gatl/ga/util/basis_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/util/basis_vector.hpp b/cpp/include/gatl/ga/util/basis_vector.hpp
index 2044b85..6f6a05d 100644
--- a/cpp/include/gatl/ga/util/basis_vector.hpp
+++ b/cpp/include/gatl/ga/util/basis_vector.hpp
@@ -44,7 +44,7 @@ namespace ga {
     // Returns a runtime defined unit basis vector.
     constexpr unit_basis_vector_t e(index_t const index) GA_NOEXCEPT {
         assert(index > 0);
-        return unit_basis_vector_t(make_sequential_storage(bitset_t(1) << (index - 1)));
+        return unit_basis_vector_t(make_sequential_storage(bitset_t(bitset_t(1) << (index - 1))));
     }
 
     // Returns a compile-time defined unit basis vector.
-- 
2.43.0


From 81f2cdfd65a2afbbfa89c492dddd7499f05463ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 22/23] fix: take the delta product of the meet with the
 tolerance of the meet

---
 cpp/include/gatl/ga/extra/meet_and_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/meet_and_join.hpp b/cpp/include/gatl/ga/extra/meet_and_join.hpp
index a0639b6..ba53173 100644
--- a/cpp/include/gatl/ga/extra/meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/meet_and_join.hpp
@@ -51,7 +51,7 @@ namespace ga {
                 return std::make_pair(meet, join);
             }
 
-            auto const delta = dp(lhs, rhs, em);
+            auto const delta = dp(lhs, rhs, tol, em);
 
             grade_t const grade_delta = grade(delta, tol);
             grade_t const grade_meet = (grade_lhs + grade_rhs - grade_delta) >> 1;
-- 
2.43.0


From 5c2f2ac46bff59d85b9b8d84a6acfa7424a3903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 23/23] fix: do not truncate quotients of integral coefficients

---
 cpp/include/gatl/ga/core/expression.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 647ce7a..167583c 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1088,12 +1088,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                if constexpr (is_constant_expression_v<LeftArgument> && is_constant_expression_v<RightArgument>) {
-                    return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
-                }
-                else {
-                    return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
-                }
+                return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
             }
 
             static_assert(!is_any_v<constant_value<0>, LeftArgument>, "The argument ga::detail::constant_value<0> is invalid.");
-- 
2.43.0

