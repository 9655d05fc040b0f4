From df433a48ebc1d3531035e7a6078218205055ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:09 +0000
Subject: [PATCH 01/14] fix: dividing by the real 1.0 returns the dividend, not
 the divisor

---
 src/arithmetics/division.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index d89d13f..de9dc52 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -71,7 +71,7 @@ impl Expression {
             }
             Expression::Real(real_divisor) => {
                 if real_divisor == &Symbol::real(1.0) {
-                    return divisor;
+                    return dividend;
                 }
                 if real_divisor == &Symbol::real(-1.0) {
                     return Expression::multiplication(vec![dividend, Symbol::real(-1.0).expr()]);
-- 
2.43.0


From 73b58d4bab626f22f07398fa16592a9d68be3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:09 +0000
Subject: [PATCH 02/14] fix: give Symbol<f64> a consistent Eq, Ord, PartialOrd
 and Hash

---
 src/symbols/real.rs | 48 +++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 1a90303..99a1db8 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -21,7 +21,15 @@ impl Symbol<f64> {
 use std::hash::{Hash, Hasher};
 impl Hash for Symbol<f64> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = num::Float::integer_decode(self.data);
+        /* equal values must share the same hash: 0.0 == -0.0 and NaN == NaN */
+        let value = if self.data == 0.0 {
+            0.0
+        } else if self.data.is_nan() {
+            std::f64::NAN
+        } else {
+            self.data
+        };
+        let (m, e, s) = num::Float::integer_decode(value);
         m.hash(state);
         e.hash(state);
         s.hash(state);
@@ -34,46 +42,22 @@ impl Hash for Symbol<f64> {
 impl Eq for Symbol<f64> {}
 impl PartialEq for Symbol<f64> {
     fn eq(&self, other: &Self) -> bool {
-        self.data == other.data
+        self.cmp(other) == std::cmp::Ordering::Equal
     }
 }
 impl Ord for Symbol<f64> {
+    /**
+     * Total order: -inf < finite values < inf < NaN, where 0.0 == -0.0 and NaN == NaN
+     */
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        if self.data > other.data {
-            return std::cmp::Ordering::Greater;
-        } else if self.data < other.data {
-            return std::cmp::Ordering::Less;
-        } else {
-            return std::cmp::Ordering::Equal;
+        match self.data.partial_cmp(&other.data) {
+            Some(ordering) => ordering,
+            None => self.data.is_nan().cmp(&other.data.is_nan()),
         }
     }
 }
 impl PartialOrd for Symbol<f64> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let both_nan = self.data == std::f64::NAN || other.data == std::f64::NAN;
-        let both_ninf = self.data == std::f64::NEG_INFINITY && other.data == std::f64::NEG_INFINITY;
-        let both_inf = self.data == std::f64::INFINITY && other.data == std::f64::INFINITY;
-
-        let first_ninf =
-            self.data == std::f64::NEG_INFINITY && other.data != std::f64::NEG_INFINITY;
-        let second_ninf =
-            other.data == std::f64::NEG_INFINITY && self.data != std::f64::NEG_INFINITY;
-
-        let first_inf = self.data == std::f64::INFINITY && other.data != std::f64::INFINITY;
-        let second_inf = other.data == std::f64::INFINITY && self.data != std::f64::INFINITY;
-
-        if both_nan || both_inf || both_ninf {
-            return None;
-        }
-
-        if first_ninf || second_inf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
-        if first_inf || second_ninf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
         Some(self.cmp(other))
     }
 }
-- 
2.43.0


From ae8628d985573371fbd7679e81b24cf2b1402d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 03/14] fix: integer logarithms are exact and do not panic on
 big integers

---
 src/exponential/logarithm.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index c228335..8465490 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -1,6 +1,7 @@
 use crate::base::{
     associative_operation::AssociativeOperation, expression::Expression, symbol::Symbol,
 };
+use num::bigint::BigInt;
 
 impl Expression {
     pub fn logarithm(argument: Expression, base: Expression) -> Expression {
@@ -12,10 +13,8 @@ impl Expression {
             }
             Expression::Integer(integer_argument) => match &base {
                 Expression::Integer(integer_base) => {
-                    let log_result: f64 =
-                        (integer_argument.value().unwrap() as f64).log(integer_base.value().unwrap() as f64);
-                    if (log_result as isize) as f64 == log_result {
-                        return Symbol::integer(log_result as isize).expr();
+                    if let Some(log_result) = integer_logarithm(integer_argument, integer_base) {
+                        return log_result.expr();
                     }
                 }
                 _ => {}
@@ -37,3 +36,28 @@ impl Expression {
         Self::logarithm(self, base)
     }
 }
+
+/**
+ * Exact logarithm, whenever the argument is an integer power of the base
+ */
+fn integer_logarithm(argument: &Symbol<BigInt>, base: &Symbol<BigInt>) -> Option<Symbol<BigInt>> {
+    let zero = Symbol::integer(0);
+    let one = Symbol::integer(1);
+
+    if argument <= &zero || base <= &one {
+        return None;
+    }
+
+    let mut remaining: Symbol<BigInt> = argument.clone();
+    let mut exponent: Symbol<BigInt> = zero.clone();
+    while &remaining % base == zero {
+        remaining = remaining / base;
+        exponent = exponent + &one;
+    }
+
+    if remaining == one {
+        return Some(exponent);
+    }
+
+    return None;
+}
-- 
2.43.0


From 1c49f4d45b1cb6b359a9095b1c7b1eb3552a8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 04/14] fix: mixing reals with integers beyond isize no longer
 panics

---
 src/arithmetics/multiplication.rs |  8 +++----
 src/exponential/power.rs          | 38 +++++++++++++++++++------------
 src/symbols/integer.rs            |  7 ++++++
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 92d11cb..2d37650 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -59,10 +59,10 @@ impl Expression {
         }
 
         if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
-            let real_value = real.value().unwrap();
-            let integer_value = integer.value().unwrap();
-            real = Symbol::real(real_value * (integer_value * -1) as f64);
-            integer = Symbol::integer(-1);
+            if let Some(opposite_value) = integer.opposite().to_real() {
+                real = real * Symbol::real(opposite_value);
+                integer = Symbol::integer(-1);
+            }
         }
 
         if integer != Symbol::integer(1) {
diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 10623f0..6dfea18 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -132,9 +132,10 @@ impl Expression {
                     }
                     /* Simplification (Integer to Real) */
                     Expression::Real(real_exponent) => {
-                        let base_value: f64 = integer_base.value().unwrap() as f64;
-                        let exp_value: f64 = real_exponent.value().unwrap();
-                        return Symbol::real(base_value.powf(exp_value)).expr();
+                        if let Some(base_value) = integer_base.to_real() {
+                            let exp_value: f64 = real_exponent.value().unwrap();
+                            return Symbol::real(base_value.powf(exp_value)).expr();
+                        }
                     }
                     /* Simplification (Integer to multiplication with Integer or Real) */
                     Expression::Multiplication(exponent_factors) => {
@@ -148,10 +149,14 @@ impl Expression {
                                 Expression::Real(_) => false,
                                 _ => true,
                             });
-                            return Expression::power(
-                                Expression::power(base, real_exponent_factor), /* Recursion: int to real */
-                                Expression::multiplication(other_factors),
-                            );
+                            let real_power = Expression::power(base.clone(), real_exponent_factor); /* Recursion: int to real */
+                            if let Expression::Real(_) = real_power {
+                                return Expression::power(
+                                    real_power,
+                                    Expression::multiplication(other_factors),
+                                );
+                            }
+                            return Expression::Power(AssociativeOperation::new(base, exponent));
                         }
                         if let Some(integer_exponent_factor) =
                             exponent_factors.get_one(&|factor| match factor {
@@ -187,9 +192,10 @@ impl Expression {
                     }
                     /* Simplification (Real to Integer) */
                     Expression::Integer(integer_exponent) => {
-                        let base_value: f64 = real_base.value().unwrap();
-                        let exp_value: f64 = integer_exponent.value().unwrap() as f64;
-                        return Symbol::real(base_value.powf(exp_value)).expr();
+                        if let Some(exp_value) = integer_exponent.to_real() {
+                            let base_value: f64 = real_base.value().unwrap();
+                            return Symbol::real(base_value.powf(exp_value)).expr();
+                        }
                     }
                     /* Simplification (Real to multiplication with Integer or Real) */
                     Expression::Multiplication(exponent_factors) => {
@@ -218,10 +224,14 @@ impl Expression {
                                 Expression::Integer(_) => false,
                                 _ => true,
                             });
-                            return Expression::power(
-                                Expression::power(base, integer_exponent_factor), /* Recursion: real to int */
-                                Expression::multiplication(other_factors),
-                            );
+                            let real_power =
+                                Expression::power(base.clone(), integer_exponent_factor); /* Recursion: real to int */
+                            if let Expression::Real(_) = real_power {
+                                return Expression::power(
+                                    real_power,
+                                    Expression::multiplication(other_factors),
+                                );
+                            }
                         }
                     }
                     _ => {}
diff --git a/src/symbols/integer.rs b/src/symbols/integer.rs
index 8d787b1..b7d666a 100644
--- a/src/symbols/integer.rs
+++ b/src/symbols/integer.rs
@@ -227,6 +227,13 @@ impl Symbol<BigInt> {
         }
     }
 
+    /**
+     * Closest f64, unless the integer is too big for it
+     */
+    pub fn to_real(&self) -> Option<f64> {
+        num::traits::ToPrimitive::to_f64(&self.data).filter(|value| value.is_finite())
+    }
+
     pub fn is_negative(&self) -> bool {
         use num::bigint::Sign;
         return self.data.sign() == Sign::Minus;
-- 
2.43.0


From e7ad85a6abcc0c5a768d24bd93f3288a79161483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 05/14] fix: integer power to a symbolic negative exponent no
 longer recurses forever

---
 src/exponential/power.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 6dfea18..ddd7fa8 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -168,10 +168,13 @@ impl Expression {
                                 Expression::Integer(_) => false,
                                 _ => true,
                             });
-                            return Expression::power(
-                                Expression::power(base, integer_exponent_factor), /* Recursion: int to int */
-                                Expression::multiplication(other_factors),
-                            );
+                            let integer_power = Expression::power(base.clone(), integer_exponent_factor); /* Recursion: int to int */
+                            if let Expression::Integer(_) = integer_power {
+                                return Expression::power(
+                                    integer_power,
+                                    Expression::multiplication(other_factors),
+                                );
+                            }
                         }
                     }
                     _ => {}
-- 
2.43.0


From 3e4b06e2d759f25164343ef3eb234c15f7a3dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 06/14] fix: negative integers to negative powers keep their
 sign out of the denominator

---
 src/exponential/power.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index ddd7fa8..1fcaa07 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -119,11 +119,21 @@ impl Expression {
                     Expression::Integer(integer_exponent) => {
                         if integer_exponent.is_negative() {
                             /* Rational Denominator */
+                            let denominator = integer_base.pow(&integer_exponent.opposite()).unwrap();
+                            if denominator.is_negative() {
+                                return Expression::multiplication(vec![
+                                    Symbol::integer(-1).expr(),
+                                    Expression::power(
+                                        denominator.opposite().expr(),
+                                        Symbol::integer(-1).expr(),
+                                    ),
+                                ]);
+                            }
+                            if denominator == Symbol::integer(1) {
+                                return denominator.expr();
+                            }
                             return Expression::Power(AssociativeOperation::new(
-                                integer_base
-                                    .pow(&integer_exponent.opposite())
-                                    .unwrap()
-                                    .expr(),
+                                denominator.expr(),
                                 Symbol::integer(-1).expr(),
                             ));
                         } else {
-- 
2.43.0


From bc705bf59c2b647cf37d8c2333707c8a9923bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 07/14] fix: Rational keeps its sign at the numerator

---
 .../simplification_rules/rational/rationals.rs             | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/manipulation/simplification_rules/rational/rationals.rs b/src/manipulation/simplification_rules/rational/rationals.rs
index 8b4d7ff..dda5648 100644
--- a/src/manipulation/simplification_rules/rational/rationals.rs
+++ b/src/manipulation/simplification_rules/rational/rationals.rs
@@ -62,6 +62,13 @@ impl Rational {
             };
         }
 
+        /* keeps the sign at the numerator */
+        let (numerator, denominator) = if denominator.is_negative() {
+            (numerator.opposite(), denominator.opposite())
+        } else {
+            (numerator, denominator)
+        };
+
         let gcd: &Symbol<BigInt> = &Symbol::gcd(&numerator, &denominator);
 
         return Self {
-- 
2.43.0


From 1a8d5854fac95e289862fc90bc66ef4bcf80bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 08/14] fix: Rational::from_expression rejects products with
 non rational factors

---
 src/manipulation/simplification_rules/rational/rationals.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/manipulation/simplification_rules/rational/rationals.rs b/src/manipulation/simplification_rules/rational/rationals.rs
index dda5648..9532813 100644
--- a/src/manipulation/simplification_rules/rational/rationals.rs
+++ b/src/manipulation/simplification_rules/rational/rationals.rs
@@ -25,6 +25,12 @@ impl Rational {
                 _ => return None,
             },
             Expression::Multiplication(factors) => {
+                let is_not_rational =
+                    |factor: &Expression| Self::from_expression(factor.clone()).is_none();
+                if factors.items().iter().any(is_not_rational) {
+                    return None;
+                }
+
                 let numerator = factors
                     .get_rational_numerators()
                     .iter()
-- 
2.43.0


From 995bbbf36eafa5b96fb1fb61a4fab8e87ee8ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 09/14] fix: common addend coefficients are not limited to
 isize

---
 .../factoring/additive_common_addend.rs       | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 1c54e1e..5d103f5 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -2,6 +2,7 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
+use num::bigint::BigInt;
 use std::collections::HashMap;
 
 pub struct AdditiveCommonAddend {}
@@ -9,12 +10,12 @@ impl Rule for AdditiveCommonAddend {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Addition(addends) => {
-                let mut addend_count_list: HashMap<Expression, isize> = HashMap::new();
+                let mut addend_count_list: HashMap<Expression, Symbol<BigInt>> = HashMap::new();
 
                 fn update_addend_list(
-                    mapping: &mut HashMap<Expression, isize>,
+                    mapping: &mut HashMap<Expression, Symbol<BigInt>>,
                     addend: &Expression,
-                    counter: isize,
+                    counter: Symbol<BigInt>,
                 ) {
                     let opposite = &-addend;
 
@@ -45,26 +46,34 @@ impl Rule for AdditiveCommonAddend {
                                     update_addend_list(
                                         &mut addend_count_list,
                                         &Expression::multiplication(remaining_factors),
-                                        integer.value().unwrap(),
+                                        integer,
                                     );
                                 }
 
                                 /* No Integer factor in multiplication */
                                 _ => {
-                                    update_addend_list(&mut addend_count_list, addend, 1);
+                                    update_addend_list(
+                                        &mut addend_count_list,
+                                        addend,
+                                        Symbol::integer(1),
+                                    );
                                 }
                             };
                         }
                         /* Not multiplication */
                         _ => {
-                            update_addend_list(&mut addend_count_list, addend, 1);
+                            update_addend_list(
+                                &mut addend_count_list,
+                                addend,
+                                Symbol::integer(1),
+                            );
                         }
                     }
                 }
                 let addends: Vec<Expression> = addend_count_list
                     .iter()
-                    .filter(|&(_, counter)| counter != &0)
-                    .map(|(expression, counter)| Symbol::integer(*counter).expr() * expression)
+                    .filter(|&(_, counter)| counter != &Symbol::integer(0))
+                    .map(|(expression, counter)| counter.clone().expr() * expression)
                     .collect();
 
                 return Expression::addition(addends);
-- 
2.43.0


From 90d7b3b17ad3b0f585ec8018a6569c4d5315a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 10/14] fix: simplify keeps the expansion when it collapses
 into a symbol

---
 src/manipulation/simplifiable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/simplifiable.rs b/src/manipulation/simplifiable.rs
index 6422a0d..4496fae 100644
--- a/src/manipulation/simplifiable.rs
+++ b/src/manipulation/simplifiable.rs
@@ -19,7 +19,7 @@ use crate::{
 impl Expression {
     pub fn simplify(self) -> Expression {
         /* recursive expansion */
-        match self.clone().expand() {
+        match self.expand() {
             Expression::Multiplication(factors) => {
                 let simplified_inner_factors =
                     Expression::multiplication(factors.map(&|factor| factor.clone().simplify()));
@@ -50,7 +50,7 @@ impl Expression {
                 return Expression::logarithm(log.argument().simplify(), log.modifier().simplify())
             }
 
-            _ => return self,
+            expanded => return expanded,
         }
     }
 }
-- 
2.43.0


From 2bb96b44cc0ae0dd76a4647482cb9f2a45c29596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 11/14] fix: expanding a power with an exponent beyond isize
 does not panic

---
 .../expansion_rules/power_distributive_addition.rs          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/expansion_rules/power_distributive_addition.rs b/src/manipulation/expansion_rules/power_distributive_addition.rs
index 4513cff..716be71 100644
--- a/src/manipulation/expansion_rules/power_distributive_addition.rs
+++ b/src/manipulation/expansion_rules/power_distributive_addition.rs
@@ -15,7 +15,11 @@ impl Rule for PowerDistributiveAddition {
                 Expression::Addition(_) => match power.modifier() {
                     /* Single Integer exponent */
                     Expression::Integer(integer_exponent) => {
-                        let exponent = integer_exponent.value().unwrap();
+                        let exponent = match integer_exponent.value() {
+                            Some(exponent) => exponent,
+                            /* too big to be expanded */
+                            None => return expression.clone(),
+                        };
                         let mut factors: Vec<Expression> = Vec::new();
 
                         for _ in 0..exponent.abs() {
-- 
2.43.0


From fd0e6c3b6b7eb804fbdf410fa99d3c537fa812a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 12/14] fix: SingleAlgebraicDenominator keeps the base of
 symbolic negative exponents

---
 .../factoring/single_algebraic_denominator.rs     | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
index 2aea09d..753be07 100644
--- a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
+++ b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
@@ -30,17 +30,10 @@ impl Rule for SingleAlgebraicDenominator {
                             Expression::Integer(n) => {
                                 return power.argument().pow((n * Symbol::integer(-1)).expr())
                             }
-                            Expression::Multiplication(power_factors) => {
-                                return Expression::multiplication(power_factors.map(&|factor| {
-                                    match factor {
-                                        Expression::Integer(n) => {
-                                            return power
-                                                .argument()
-                                                .pow((n * Symbol::integer(-1)).expr())
-                                        }
-                                        _ => return factor.clone(),
-                                    }
-                                }))
+                            Expression::Multiplication(_) => {
+                                return power
+                                    .argument()
+                                    .pow(Symbol::integer(-1).expr() * power.modifier())
                             }
                             _ => return denominator.clone(),
                         },
-- 
2.43.0


From b093449b6784e73c4a5d7b6443827af61cb916ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 13/14] fix: comparisons recognise negative real, rational and
 mixed numeric differences

---
 src/manipulation/expression_comparison.rs     | 46 ++++++++++++++++---
 .../rational/rationals.rs                     |  7 +++
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 6e3d833..0f56bd0 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -1,9 +1,10 @@
 use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
+use crate::manipulation::simplification_rules::rational::rationals::Rational;
 
 impl Expression {
     pub fn comparable(&self, other: &Expression) -> bool {
-        match (self - other).simplify() {
+        match self.numeric_difference(other) {
             Expression::Integer(_) => return true,
             Expression::Real(_) => return true,
             _ => return false,
@@ -11,7 +12,7 @@ impl Expression {
     }
 
     pub fn equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.numeric_difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0),
@@ -20,7 +21,7 @@ impl Expression {
     }
 
     pub fn not_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.numeric_difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n != Symbol::integer(0),
             Expression::Real(r) => return r != Symbol::real(0.0),
@@ -29,7 +30,7 @@ impl Expression {
     }
 
     pub fn greater(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.numeric_difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n > Symbol::integer(0),
             Expression::Real(r) => return r > Symbol::real(0.0),
@@ -38,7 +39,7 @@ impl Expression {
     }
 
     pub fn lesser(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.numeric_difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n < Symbol::integer(0),
             Expression::Real(r) => return r < Symbol::real(0.0),
@@ -47,7 +48,7 @@ impl Expression {
     }
 
     pub fn greater_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.numeric_difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0) || n > Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r > Symbol::real(0.0),
@@ -55,11 +56,42 @@ impl Expression {
         }
     }
     pub fn lesser_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.numeric_difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0) || n < Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r < Symbol::real(0.0),
             _ => return false,
         }
     }
+
+    /**
+     * Simplified difference, as a single symbol with the same sign whenever it's a number
+     */
+    fn numeric_difference(&self, other: &Self) -> Expression {
+        let simplified_difference = (self - other).simplify();
+
+        if let Some(rational) = Rational::from_expression(simplified_difference.clone()) {
+            return rational.numerator().expr();
+        }
+        if let Some(value) = numeric_value(&simplified_difference) {
+            return Symbol::real(value).expr();
+        }
+        return simplified_difference;
+    }
+}
+
+/**
+ * Value of an expression composed of numbers only
+ */
+fn numeric_value(expression: &Expression) -> Option<f64> {
+    match expression {
+        Expression::Integer(n) => n.to_real(),
+        Expression::Real(r) => r.value(),
+        Expression::Addition(addends) => addends.items().iter().map(numeric_value).sum(),
+        Expression::Multiplication(factors) => factors.items().iter().map(numeric_value).product(),
+        Expression::Power(power) => {
+            Some(numeric_value(&power.argument())?.powf(numeric_value(&power.modifier())?))
+        }
+        _ => None,
+    }
 }
diff --git a/src/manipulation/simplification_rules/rational/rationals.rs b/src/manipulation/simplification_rules/rational/rationals.rs
index 9532813..cb85919 100644
--- a/src/manipulation/simplification_rules/rational/rationals.rs
+++ b/src/manipulation/simplification_rules/rational/rationals.rs
@@ -83,6 +83,13 @@ impl Rational {
         };
     }
 
+    /**
+     * Getter for the numerator, which holds the sign
+     */
+    pub fn numerator(&self) -> Symbol<BigInt> {
+        self.numerator.clone()
+    }
+
     /**
      * Constructor for Expression from Self
      */
-- 
2.43.0


From a70eb7d2392e9cdc275ca75bfba675e3e3b5353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 14/14] fix: an expression is always equal to itself in
 comparisons

---
 src/manipulation/expression_comparison.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 0f56bd0..50ad259 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -68,6 +68,11 @@ impl Expression {
      * Simplified difference, as a single symbol with the same sign whenever it's a number
      */
     fn numeric_difference(&self, other: &Self) -> Expression {
+        /* the simplified difference of equal expressions is not always a number */
+        if self == other {
+            return Symbol::integer(0).expr();
+        }
+
         let simplified_difference = (self - other).simplify();
 
         if let Some(rational) = Rational::from_expression(simplified_difference.clone()) {
-- 
2.43.0

