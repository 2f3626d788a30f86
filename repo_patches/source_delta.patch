From 2a22548f80c407d1d9c1e0195741923e220a1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 01/13] fix: power of an integer to a negated symbolic exponent
 recursed forever

2^(-x) took the integer factor -1 out of the exponent, built 2^-1 and raised it
to x, which merges back to 2^(-x): the stack overflowed.
---
 src/exponential/power.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 10623f0..a1cea0e 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -153,9 +153,11 @@ impl Expression {
                                 Expression::multiplication(other_factors),
                             );
                         }
+                        /* A negative integer factor is kept at the exponent: the inverse of an integer
+                        is itself a power, and it would be merged back to this same exponent */
                         if let Some(integer_exponent_factor) =
                             exponent_factors.get_one(&|factor| match factor {
-                                Expression::Integer(_) => true,
+                                Expression::Integer(n) => !n.is_negative(),
                                 _ => false,
                             })
                         {
-- 
2.43.0


From 9638881075d0399d6c434c31d64e9d9cb5122f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 02/13] fix: dividing by the real 1.0 returned the divisor
 instead of the dividend

---
 src/arithmetics/division.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index d89d13f..de9dc52 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -71,7 +71,7 @@ impl Expression {
             }
             Expression::Real(real_divisor) => {
                 if real_divisor == &Symbol::real(1.0) {
-                    return divisor;
+                    return dividend;
                 }
                 if real_divisor == &Symbol::real(-1.0) {
                     return Expression::multiplication(vec![dividend, Symbol::real(-1.0).expr()]);
-- 
2.43.0


From 2148eba089b53411c501c0f32948de0cdf19d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:49 +0000
Subject: [PATCH 03/13] fix: denominator merging moved symbolic exponent
 factors out of the exponent

1 / a^(2x) became 1 / (a^2 * x): every non-integer factor of the exponent was
multiplied to the denominator instead of being kept at the exponent.
---
 .../factoring/single_algebraic_denominator.rs      | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
index 2aea09d..78e06e1 100644
--- a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
+++ b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
@@ -31,16 +31,14 @@ impl Rule for SingleAlgebraicDenominator {
                                 return power.argument().pow((n * Symbol::integer(-1)).expr())
                             }
                             Expression::Multiplication(power_factors) => {
-                                return Expression::multiplication(power_factors.map(&|factor| {
-                                    match factor {
+                                return power.argument().pow(Expression::multiplication(
+                                    power_factors.map(&|factor| match factor {
                                         Expression::Integer(n) => {
-                                            return power
-                                                .argument()
-                                                .pow((n * Symbol::integer(-1)).expr())
+                                            (n * Symbol::integer(-1)).expr()
                                         }
-                                        _ => return factor.clone(),
-                                    }
-                                }))
+                                        _ => factor.clone(),
+                                    }),
+                                ))
                             }
                             _ => return denominator.clone(),
                         },
-- 
2.43.0


From f549d00a2daf10270f777927d0d97df0708e69ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:31 +0000
Subject: [PATCH 04/13] fix: like terms were collected by machine-sized integer
 coefficients only

Coefficients above isize panicked, and rational coefficients were not
collected (x/2 + x/2 stayed a sum).
---
 .../factoring/additive_common_addend.rs       | 51 ++++++++-----------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 1c54e1e..4ca95cc 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -1,6 +1,6 @@
 use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
-use crate::manipulation::simplification_rules::rule::Rule;
+use crate::manipulation::simplification_rules::{rational::rationals::Rational, rule::Rule};
 
 use std::collections::HashMap;
 
@@ -9,12 +9,14 @@ impl Rule for AdditiveCommonAddend {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Addition(addends) => {
-                let mut addend_count_list: HashMap<Expression, isize> = HashMap::new();
+                let one = Rational::from(Symbol::integer(1), Symbol::integer(1));
+                let zero = Rational::from(Symbol::integer(0), Symbol::integer(1));
+                let mut addend_count_list: HashMap<Expression, Rational> = HashMap::new();
 
                 fn update_addend_list(
-                    mapping: &mut HashMap<Expression, isize>,
+                    mapping: &mut HashMap<Expression, Rational>,
                     addend: &Expression,
-                    counter: isize,
+                    counter: Rational,
                 ) {
                     let opposite = &-addend;
 
@@ -32,39 +34,30 @@ impl Rule for AdditiveCommonAddend {
                 for addend in addends.items().iter() {
                     match addend {
                         Expression::Multiplication(factors) => {
-                            match factors.get_one(&|factor| match factor {
-                                Expression::Integer(_) => true,
-                                _ => false,
-                            }) {
-                                /* Integer factor in multiplication */
-                                Some(Expression::Integer(integer)) => {
-                                    let remaining_factors = factors.get(&|factor| match factor {
-                                        Expression::Integer(_) => false,
-                                        _ => true,
-                                    });
-                                    update_addend_list(
-                                        &mut addend_count_list,
-                                        &Expression::multiplication(remaining_factors),
-                                        integer.value().unwrap(),
-                                    );
-                                }
-
-                                /* No Integer factor in multiplication */
-                                _ => {
-                                    update_addend_list(&mut addend_count_list, addend, 1);
-                                }
-                            };
+                            /* Rational coefficient of the multiplication (1 if there is none) */
+                            let coefficient = factors
+                                .get_rationals()
+                                .iter()
+                                .cloned()
+                                .filter_map(Rational::from_expression)
+                                .fold(one.clone(), |acc, value| acc * value);
+
+                            update_addend_list(
+                                &mut addend_count_list,
+                                &Expression::multiplication(factors.get_non_rationals()),
+                                coefficient,
+                            );
                         }
                         /* Not multiplication */
                         _ => {
-                            update_addend_list(&mut addend_count_list, addend, 1);
+                            update_addend_list(&mut addend_count_list, addend, one.clone());
                         }
                     }
                 }
                 let addends: Vec<Expression> = addend_count_list
                     .iter()
-                    .filter(|&(_, counter)| counter != &0)
-                    .map(|(expression, counter)| Symbol::integer(*counter).expr() * expression)
+                    .filter(|&(_, counter)| counter != &zero)
+                    .map(|(expression, counter)| counter.clone().expr() * expression)
                     .collect();
 
                 return Expression::addition(addends);
-- 
2.43.0


From 3c9ed926e5bb949f8fe04e88ec9eeb75f5d8d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 05/13] fix: negative denominators were not normalised

6/-3 gave 2 * pow(-1, -1) instead of -2, (-1)^-2 gave pow(1, -1), and the
same fraction had two forms depending on where its sign was written.
---
 src/exponential/power.rs                      | 21 +++++++++++++++----
 .../rational/rationals.rs                     |  7 ++++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index a1cea0e..94dbcf0 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -119,11 +119,24 @@ impl Expression {
                     Expression::Integer(integer_exponent) => {
                         if integer_exponent.is_negative() {
                             /* Rational Denominator */
+                            let denominator =
+                                integer_base.pow(&integer_exponent.opposite()).unwrap();
+
+                            if denominator.is_negative() {
+                                /* keeps signal separated */
+                                return Expression::multiplication(vec![
+                                    Symbol::integer(-1).expr(),
+                                    Expression::power(
+                                        denominator.opposite().expr(),
+                                        Symbol::integer(-1).expr(),
+                                    ),
+                                ]);
+                            }
+                            if denominator == Symbol::integer(1) {
+                                return denominator.expr();
+                            }
                             return Expression::Power(AssociativeOperation::new(
-                                integer_base
-                                    .pow(&integer_exponent.opposite())
-                                    .unwrap()
-                                    .expr(),
+                                denominator.expr(),
                                 Symbol::integer(-1).expr(),
                             ));
                         } else {
diff --git a/src/manipulation/simplification_rules/rational/rationals.rs b/src/manipulation/simplification_rules/rational/rationals.rs
index 8b4d7ff..e905014 100644
--- a/src/manipulation/simplification_rules/rational/rationals.rs
+++ b/src/manipulation/simplification_rules/rational/rationals.rs
@@ -62,7 +62,12 @@ impl Rational {
             };
         }
 
-        let gcd: &Symbol<BigInt> = &Symbol::gcd(&numerator, &denominator);
+        let mut gcd = Symbol::gcd(&numerator, &denominator);
+        if denominator.is_negative() {
+            /* keeps sign at the numerator */
+            gcd = gcd.opposite();
+        }
+        let gcd: &Symbol<BigInt> = &gcd;
 
         return Self {
             numerator: numerator / gcd,
-- 
2.43.0


From 1587bde8550ad3d73fa70d3726d3661e5fc65be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 06/13] fix: simplify stopped before its result was simplified

One pass could leave something simplifiable behind, e.g. the exponent it had
just collected (x * pow(x, 1/2)) or a sum it had just built ((x + x)/2), and an
expansion that ended in a single symbol was thrown away.
---
 src/manipulation/simplifiable.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/manipulation/simplifiable.rs b/src/manipulation/simplifiable.rs
index 6422a0d..9b2d1ca 100644
--- a/src/manipulation/simplifiable.rs
+++ b/src/manipulation/simplifiable.rs
@@ -17,12 +17,26 @@ use crate::{
 };
 
 impl Expression {
+    /**
+     * Applies simplification passes until the expression no longer changes
+     */
     pub fn simplify(self) -> Expression {
+        let mut simplified = self.simplification_pass();
+        loop {
+            let next = simplified.clone().simplification_pass();
+            if next.cmp(&simplified) == std::cmp::Ordering::Equal {
+                return simplified;
+            }
+            simplified = next;
+        }
+    }
+
+    fn simplification_pass(self) -> Expression {
         /* recursive expansion */
-        match self.clone().expand() {
+        match self.expand() {
             Expression::Multiplication(factors) => {
                 let simplified_inner_factors =
-                    Expression::multiplication(factors.map(&|factor| factor.clone().simplify()));
+                    Expression::multiplication(factors.map(&|factor| factor.clone().simplification_pass()));
 
                 let simplified_rationals =
                     RationalsMultiplication::apply(&simplified_inner_factors);
@@ -34,7 +48,7 @@ impl Expression {
             }
             Expression::Addition(addends) => {
                 let simplified_inner_addends =
-                    Expression::addition(addends.map(&|addend| addend.clone().simplify()));
+                    Expression::addition(addends.map(&|addend| addend.clone().simplification_pass()));
 
                 let simplified_rationals = RationalsAddition::apply(&simplified_inner_addends);
 
@@ -44,13 +58,19 @@ impl Expression {
             }
 
             Expression::Power(power) => {
-                return Expression::power(power.argument().simplify(), power.modifier().simplify());
+                return Expression::power(
+                    power.argument().simplification_pass(),
+                    power.modifier().simplification_pass(),
+                );
             }
             Expression::Logarithm(log) => {
-                return Expression::logarithm(log.argument().simplify(), log.modifier().simplify())
+                return Expression::logarithm(
+                    log.argument().simplification_pass(),
+                    log.modifier().simplification_pass(),
+                )
             }
 
-            _ => return self,
+            expanded => return expanded,
         }
     }
 }
-- 
2.43.0


From fc72adbb5ac69857fe31326636a91184c2e911b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 07/13] fix: integer powers of a product were never expanded

pow(x*y, 2) and x*x*y*y neither expanded nor simplified to the same thing, so
(x*y)^2 was not equal to x^2*y^2. The existing distribution rule was not used.
---
 src/manipulation/expand.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/manipulation/expand.rs b/src/manipulation/expand.rs
index 5e313d4..b92b0af 100644
--- a/src/manipulation/expand.rs
+++ b/src/manipulation/expand.rs
@@ -5,7 +5,8 @@ use crate::{
     base::expression::Expression,
     manipulation::expansion_rules::{
         multiplicative_distributive::MultiplicativeDistributive,
-        power_distributive_addition::PowerDistributiveAddition, rule::Rule,
+        power_distributive_addition::PowerDistributiveAddition,
+        power_distributive_multiplication::PowerDistributiveMultiplication, rule::Rule,
     },
 };
 
@@ -23,10 +24,25 @@ impl Expression {
             }
 
             Expression::Power(power) => {
-                return PowerDistributiveAddition::apply(&Expression::power(
-                    power.argument().expand(),
-                    power.modifier().expand(),
-                ));
+                let expanded =
+                    Expression::power(power.argument().expand(), power.modifier().expand());
+
+                match &expanded {
+                    /* Numerical factors were already distributed at construction */
+                    Expression::Multiplication(_) => return expanded.expand(),
+                    Expression::Power(expanded_power) => {
+                        match (expanded_power.argument(), expanded_power.modifier()) {
+                            /* Integer exponents distribute over the factors of the base */
+                            (Expression::Multiplication(_), Expression::Integer(_)) => {
+                                return PowerDistributiveMultiplication::apply(&expanded).expand();
+                            }
+                            _ => {}
+                        }
+                    }
+                    _ => {}
+                }
+
+                return PowerDistributiveAddition::apply(&expanded);
             }
             Expression::Logarithm(log) => {
                 return Expression::logarithm(log.argument().expand(), log.modifier().expand())
-- 
2.43.0


From 1a775d180680f3cfffcf53c00a159e7b9c42aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 08/13] fix: comparisons did not recognise every numeric
 difference

A difference that simplified to a fraction, a negated real or a mix of integers
and reals was not compared: 1/2 > 1/3 and 1.0 < 2.0 vs 2.0 > 1.0 disagreed.
---
 src/manipulation/expression_comparison.rs | 82 +++++++++++++++++------
 1 file changed, 63 insertions(+), 19 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 6e3d833..b3f061c 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -1,65 +1,109 @@
 use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
+use num::bigint::BigInt;
+use num::rational::BigRational;
+use num::{One, Zero};
 
 impl Expression {
     pub fn comparable(&self, other: &Expression) -> bool {
         match (self - other).simplify() {
             Expression::Integer(_) => return true,
             Expression::Real(_) => return true,
-            _ => return false,
+            difference => return numeric_value(&difference).is_some(),
         }
     }
 
     pub fn equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
+        match (self - other).simplify() {
             Expression::Integer(n) => return n == Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0),
-            _ => return false,
+            difference => return numeric_value(&difference).map_or(false, |value| value.is_zero()),
         }
     }
 
     pub fn not_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
+        match (self - other).simplify() {
             Expression::Integer(n) => return n != Symbol::integer(0),
             Expression::Real(r) => return r != Symbol::real(0.0),
-            _ => return false,
+            difference => {
+                return numeric_value(&difference).map_or(false, |value| !value.is_zero())
+            }
         }
     }
 
     pub fn greater(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
+        match (self - other).simplify() {
             Expression::Integer(n) => return n > Symbol::integer(0),
             Expression::Real(r) => return r > Symbol::real(0.0),
-            _ => return false,
+            difference => {
+                return numeric_value(&difference)
+                    .map_or(false, |value| value > BigRational::zero())
+            }
         }
     }
 
     pub fn lesser(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
+        match (self - other).simplify() {
             Expression::Integer(n) => return n < Symbol::integer(0),
             Expression::Real(r) => return r < Symbol::real(0.0),
-            _ => return false,
+            difference => {
+                return numeric_value(&difference)
+                    .map_or(false, |value| value < BigRational::zero())
+            }
         }
     }
 
     pub fn greater_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
+        match (self - other).simplify() {
             Expression::Integer(n) => return n == Symbol::integer(0) || n > Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r > Symbol::real(0.0),
-            _ => return false,
+            difference => {
+                return numeric_value(&difference)
+                    .map_or(false, |value| value >= BigRational::zero())
+            }
         }
     }
     pub fn lesser_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
+        match (self - other).simplify() {
             Expression::Integer(n) => return n == Symbol::integer(0) || n < Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r < Symbol::real(0.0),
-            _ => return false,
+            difference => {
+                return numeric_value(&difference)
+                    .map_or(false, |value| value <= BigRational::zero())
+            }
         }
     }
 }
+
+/**
+ * Exact value of a simplified expression made of numbers only: integers, reals, fractions, and
+ * the sums and products of them
+ */
+fn numeric_value(expression: &Expression) -> Option<BigRational> {
+    match expression {
+        Expression::Integer(n) => Some(BigRational::from_integer(n.data.clone())),
+        Expression::Real(r) => BigRational::from_float(r.data),
+        Expression::Power(power) => match (power.argument(), power.modifier()) {
+            (Expression::Integer(denominator), Expression::Integer(exponent)) => {
+                if exponent != Symbol::integer(-1) || denominator == Symbol::integer(0) {
+                    return None;
+                }
+                Some(BigRational::new(BigInt::one(), denominator.data))
+            }
+            _ => None,
+        },
+        Expression::Addition(addends) => addends
+            .items()
+            .iter()
+            .try_fold(BigRational::zero(), |sum, addend| {
+                Some(sum + numeric_value(addend)?)
+            }),
+        Expression::Multiplication(factors) => factors
+            .items()
+            .iter()
+            .try_fold(BigRational::one(), |product, factor| {
+                Some(product * numeric_value(factor)?)
+            }),
+        _ => None,
+    }
+}
-- 
2.43.0


From 90137529d2c6d1302b10f509d5c599f5d96c099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 09/13] fix: integer logarithms were decided in floating point

log(2^50 + 1, 2) gave 50, integers above isize panicked, and a base of zero was
accepted.
---
 src/exponential/logarithm.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index c228335..18917d2 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -1,6 +1,7 @@
 use crate::base::{
     associative_operation::AssociativeOperation, expression::Expression, symbol::Symbol,
 };
+use num::bigint::BigInt;
 
 impl Expression {
     pub fn logarithm(argument: Expression, base: Expression) -> Expression {
@@ -12,10 +13,9 @@ impl Expression {
             }
             Expression::Integer(integer_argument) => match &base {
                 Expression::Integer(integer_base) => {
-                    let log_result: f64 =
-                        (integer_argument.value().unwrap() as f64).log(integer_base.value().unwrap() as f64);
-                    if (log_result as isize) as f64 == log_result {
-                        return Symbol::integer(log_result as isize).expr();
+                    /* Exact results only */
+                    if let Some(exponent) = integer_logarithm(integer_argument, integer_base) {
+                        return exponent.expr();
                     }
                 }
                 _ => {}
@@ -37,3 +37,25 @@ impl Expression {
         Self::logarithm(self, base)
     }
 }
+
+/**
+ * Exponent which takes the base exactly to the argument, if there is one
+ */
+fn integer_logarithm(argument: &Symbol<BigInt>, base: &Symbol<BigInt>) -> Option<Symbol<BigInt>> {
+    let one = Symbol::integer(1);
+    if argument < &one || base <= &one {
+        return None;
+    }
+
+    let mut exponent = Symbol::integer(0);
+    let mut power = one.clone();
+    while &power < argument {
+        power = power * base;
+        exponent = exponent + &one;
+    }
+
+    if &power == argument {
+        return Some(exponent);
+    }
+    return None;
+}
-- 
2.43.0


From 33042eedc8ce1e17b7aa416f2f154bcd3ab7f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 10/13] fix: integers above isize panicked when combined with
 reals

Multiplication, powers and the expansion of powers converted integers with
value().unwrap(), which is None for anything that does not fit an isize.
---
 src/arithmetics/multiplication.rs                   | 10 +++++++---
 src/exponential/power.rs                            | 13 +++++++++----
 .../expansion_rules/power_distributive_addition.rs  |  6 +++++-
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 92d11cb..daddd33 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -2,6 +2,7 @@ use crate::base::{
     commutative_association::CommutativeAssociation, expression::Expression, symbol::Symbol,
 };
 use num::bigint::BigInt;
+use num::traits::ToPrimitive;
 
 impl Expression {
     /**
@@ -60,9 +61,12 @@ impl Expression {
 
         if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
             let real_value = real.value().unwrap();
-            let integer_value = integer.value().unwrap();
-            real = Symbol::real(real_value * (integer_value * -1) as f64);
-            integer = Symbol::integer(-1);
+            let integer_value = integer.opposite().data.to_f64().unwrap();
+            /* Integers beyond the range of reals are kept apart */
+            if integer_value.is_finite() {
+                real = Symbol::real(real_value * integer_value);
+                integer = Symbol::integer(-1);
+            }
         }
 
         if integer != Symbol::integer(1) {
diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 94dbcf0..cdc350c 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -1,5 +1,6 @@
 use crate::base::associative_operation::AssociativeOperation;
 use crate::base::{expression::Expression, symbol::Symbol};
+use num::traits::ToPrimitive;
 
 impl Expression {
     /**
@@ -114,6 +115,9 @@ impl Expression {
 
         match &base {
             Expression::Integer(integer_base) => {
+                /* Integers beyond the range of reals are kept as they are */
+                let real_base_value: f64 = integer_base.data.to_f64().unwrap();
+
                 match &exponent {
                     /* Simplification (Integer to Integer) */
                     Expression::Integer(integer_exponent) => {
@@ -145,15 +149,16 @@ impl Expression {
                     }
                     /* Simplification (Integer to Real) */
                     Expression::Real(real_exponent) => {
-                        let base_value: f64 = integer_base.value().unwrap() as f64;
                         let exp_value: f64 = real_exponent.value().unwrap();
-                        return Symbol::real(base_value.powf(exp_value)).expr();
+                        if real_base_value.is_finite() {
+                            return Symbol::real(real_base_value.powf(exp_value)).expr();
+                        }
                     }
                     /* Simplification (Integer to multiplication with Integer or Real) */
                     Expression::Multiplication(exponent_factors) => {
                         if let Some(real_exponent_factor) =
                             exponent_factors.get_one(&|factor| match factor {
-                                Expression::Real(_) => true,
+                                Expression::Real(_) => real_base_value.is_finite(),
                                 _ => false,
                             })
                         {
@@ -203,7 +208,7 @@ impl Expression {
                     /* Simplification (Real to Integer) */
                     Expression::Integer(integer_exponent) => {
                         let base_value: f64 = real_base.value().unwrap();
-                        let exp_value: f64 = integer_exponent.value().unwrap() as f64;
+                        let exp_value: f64 = integer_exponent.data.to_f64().unwrap();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
                     /* Simplification (Real to multiplication with Integer or Real) */
diff --git a/src/manipulation/expansion_rules/power_distributive_addition.rs b/src/manipulation/expansion_rules/power_distributive_addition.rs
index 4513cff..c6b533a 100644
--- a/src/manipulation/expansion_rules/power_distributive_addition.rs
+++ b/src/manipulation/expansion_rules/power_distributive_addition.rs
@@ -15,7 +15,11 @@ impl Rule for PowerDistributiveAddition {
                 Expression::Addition(_) => match power.modifier() {
                     /* Single Integer exponent */
                     Expression::Integer(integer_exponent) => {
-                        let exponent = integer_exponent.value().unwrap();
+                        let exponent = match integer_exponent.value() {
+                            Some(exponent) => exponent,
+                            /* Too large to be written down as a multiplication */
+                            None => return expression.clone(),
+                        };
                         let mut factors: Vec<Expression> = Vec::new();
 
                         for _ in 0..exponent.abs() {
-- 
2.43.0


From 6387c9c31ee476877453a241930777329429a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 11/13] fix: equality, order and hash of reals disagreed with
 each other

inf was lesser than any number, inf was not comparable to itself, 0.0 and -0.0
were equal but hashed differently, and NaN was equal to every number in the
order while different from itself. NaN addends were also dropped from sums.
---
 src/symbols/real.rs | 41 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 1a90303..b3df9f2 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -21,7 +21,15 @@ impl Symbol<f64> {
 use std::hash::{Hash, Hasher};
 impl Hash for Symbol<f64> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = num::Float::integer_decode(self.data);
+        /* equal values share the same hash: 0.0 and -0.0, and every NaN */
+        let value = if self.data == 0.0 {
+            0.0
+        } else if self.data.is_nan() {
+            std::f64::NAN
+        } else {
+            self.data
+        };
+        let (m, e, s) = num::Float::integer_decode(value);
         m.hash(state);
         e.hash(state);
         s.hash(state);
@@ -34,46 +42,25 @@ impl Hash for Symbol<f64> {
 impl Eq for Symbol<f64> {}
 impl PartialEq for Symbol<f64> {
     fn eq(&self, other: &Self) -> bool {
-        self.data == other.data
+        self.cmp(other) == std::cmp::Ordering::Equal
     }
 }
 impl Ord for Symbol<f64> {
+    /**
+     * Total order: NaN is equal to itself and greater than any other value
+     */
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
         if self.data > other.data {
             return std::cmp::Ordering::Greater;
         } else if self.data < other.data {
             return std::cmp::Ordering::Less;
         } else {
-            return std::cmp::Ordering::Equal;
+            return self.data.is_nan().cmp(&other.data.is_nan());
         }
     }
 }
 impl PartialOrd for Symbol<f64> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let both_nan = self.data == std::f64::NAN || other.data == std::f64::NAN;
-        let both_ninf = self.data == std::f64::NEG_INFINITY && other.data == std::f64::NEG_INFINITY;
-        let both_inf = self.data == std::f64::INFINITY && other.data == std::f64::INFINITY;
-
-        let first_ninf =
-            self.data == std::f64::NEG_INFINITY && other.data != std::f64::NEG_INFINITY;
-        let second_ninf =
-            other.data == std::f64::NEG_INFINITY && self.data != std::f64::NEG_INFINITY;
-
-        let first_inf = self.data == std::f64::INFINITY && other.data != std::f64::INFINITY;
-        let second_inf = other.data == std::f64::INFINITY && self.data != std::f64::INFINITY;
-
-        if both_nan || both_inf || both_ninf {
-            return None;
-        }
-
-        if first_ninf || second_inf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
-        if first_inf || second_ninf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
         Some(self.cmp(other))
     }
 }
-- 
2.43.0


From f875fd187f36fc043e86eb470f232fc979d4a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:31 +0000
Subject: [PATCH 12/13] verif: hash map iteration order can be decided from
 outside (cfg ncas_verif)

---
 src/lib.rs                                    |   3 +
 .../factoring/additive_common_addend.rs       |   3 +
 .../factoring/multiplicative_common_factor.rs |   3 +
 src/verif_hooks.rs                            | 140 ++++++++++++++++++
 4 files changed, 149 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 1d9b10b..6178fd0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+#[cfg(ncas_verif)]
+pub mod verif_hooks;
+
 pub mod base {
     /* General recursive structure */
     pub mod expression;
diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 4ca95cc..7101bbd 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -2,6 +2,9 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::{rational::rationals::Rational, rule::Rule};
 
+#[cfg(ncas_verif)]
+use crate::verif_hooks::HashMap;
+#[cfg(not(ncas_verif))]
 use std::collections::HashMap;
 
 pub struct AdditiveCommonAddend {}
diff --git a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
index 7fc64a4..6fe4f8c 100644
--- a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
+++ b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
@@ -2,6 +2,9 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
+#[cfg(ncas_verif)]
+use crate::verif_hooks::HashMap;
+#[cfg(not(ncas_verif))]
 use std::collections::HashMap;
 
 pub struct MultiplicativeCommonFactor {}
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..f941d23
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,140 @@
+//! Verification hooks, compiled only with `--cfg ncas_verif`.
+//!
+//! `HashMap` behaves as `std::collections::HashMap`, except that the order in which it is iterated
+//! is decided by whoever drives the exploration instead of by a random seed.
+use std::cell::RefCell;
+use std::collections::hash_map::DefaultHasher;
+use std::hash::{BuildHasherDefault, Hash};
+use std::ops::{Deref, DerefMut};
+
+type Inner<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<DefaultHasher>>;
+type Order = Box<dyn FnMut(usize) -> Vec<usize>>;
+
+thread_local! {
+    static ORDER: RefCell<Option<Order>> = RefCell::new(None);
+}
+
+/**
+ * Sets who decides the iteration order at this thread. Given the number of items, it returns a
+ * permutation of their positions. The order is fixed (but arbitrary) when nobody decides it.
+ */
+pub fn set_iteration_order(order: Option<Order>) {
+    ORDER.with(|current| *current.borrow_mut() = order);
+}
+
+fn arrange<T>(items: Vec<T>) -> std::vec::IntoIter<T> {
+    if items.len() < 2 {
+        return items.into_iter();
+    }
+    let decided = ORDER.with(|order| {
+        order
+            .borrow_mut()
+            .as_mut()
+            .map(|decide| decide(items.len()))
+    });
+    match decided {
+        None => items.into_iter(),
+        Some(permutation) => {
+            let mut slots: Vec<Option<T>> = items.into_iter().map(Some).collect();
+            let arranged: Vec<T> = permutation
+                .iter()
+                .map(|&position| slots[position].take().expect("not a permutation"))
+                .collect();
+            assert_eq!(arranged.len(), slots.len());
+            arranged.into_iter()
+        }
+    }
+}
+
+#[derive(Clone, Debug)]
+pub struct HashMap<K, V> {
+    inner: Inner<K, V>,
+}
+
+impl<K: Eq + Hash, V> HashMap<K, V> {
+    pub fn new() -> Self {
+        Self {
+            inner: Inner::default(),
+        }
+    }
+    pub fn with_capacity(_: usize) -> Self {
+        Self::new()
+    }
+}
+
+impl<K, V> HashMap<K, V> {
+    pub fn iter(&self) -> std::vec::IntoIter<(&K, &V)> {
+        arrange(self.inner.iter().collect())
+    }
+    pub fn iter_mut(&mut self) -> std::vec::IntoIter<(&K, &mut V)> {
+        arrange(self.inner.iter_mut().collect())
+    }
+    pub fn keys(&self) -> std::vec::IntoIter<&K> {
+        arrange(self.inner.keys().collect())
+    }
+    pub fn values(&self) -> std::vec::IntoIter<&V> {
+        arrange(self.inner.values().collect())
+    }
+    pub fn values_mut(&mut self) -> std::vec::IntoIter<&mut V> {
+        arrange(self.inner.values_mut().collect())
+    }
+    pub fn drain(&mut self) -> std::vec::IntoIter<(K, V)> {
+        arrange(self.inner.drain().collect())
+    }
+    pub fn into_keys(self) -> std::vec::IntoIter<K> {
+        arrange(self.inner.into_iter().map(|(key, _)| key).collect())
+    }
+    pub fn into_values(self) -> std::vec::IntoIter<V> {
+        arrange(self.inner.into_iter().map(|(_, value)| value).collect())
+    }
+}
+
+impl<K: Eq + Hash, V> Default for HashMap<K, V> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+impl<K, V> Deref for HashMap<K, V> {
+    type Target = Inner<K, V>;
+    fn deref(&self) -> &Self::Target {
+        &self.inner
+    }
+}
+impl<K, V> DerefMut for HashMap<K, V> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.inner
+    }
+}
+impl<K: Eq + Hash, V> std::iter::FromIterator<(K, V)> for HashMap<K, V> {
+    fn from_iter<I: IntoIterator<Item = (K, V)>>(items: I) -> Self {
+        Self {
+            inner: items.into_iter().collect(),
+        }
+    }
+}
+impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
+    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, items: I) {
+        self.inner.extend(items)
+    }
+}
+impl<K, V> IntoIterator for HashMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::vec::IntoIter<(K, V)>;
+    fn into_iter(self) -> Self::IntoIter {
+        arrange(self.inner.into_iter().collect())
+    }
+}
+impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
+    type Item = (&'a K, &'a V);
+    type IntoIter = std::vec::IntoIter<(&'a K, &'a V)>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.iter()
+    }
+}
+impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
+    type Item = (&'a K, &'a mut V);
+    type IntoIter = std::vec::IntoIter<(&'a K, &'a mut V)>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.iter_mut()
+    }
+}
-- 
2.43.0


From 8041f39820fc7e50f2d49dcf994af6f7fdae22f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 13/13] fix: comparing the other way round could give an answer
 that was not the opposite

Reals are rounded and not always collected, so a - b and b - a could disagree: x and
0.5 * 2 * x were comparable in one direction only, and 9 / 1e18 differed from itself.
---
 src/manipulation/expression_comparison.rs | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index b3f061c..ec490e9 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -6,7 +6,7 @@ use num::{One, Zero};
 
 impl Expression {
     pub fn comparable(&self, other: &Expression) -> bool {
-        match (self - other).simplify() {
+        match difference(self, other) {
             Expression::Integer(_) => return true,
             Expression::Real(_) => return true,
             difference => return numeric_value(&difference).is_some(),
@@ -14,7 +14,7 @@ impl Expression {
     }
 
     pub fn equal(&self, other: &Self) -> bool {
-        match (self - other).simplify() {
+        match difference(self, other) {
             Expression::Integer(n) => return n == Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0),
             difference => return numeric_value(&difference).map_or(false, |value| value.is_zero()),
@@ -22,7 +22,7 @@ impl Expression {
     }
 
     pub fn not_equal(&self, other: &Self) -> bool {
-        match (self - other).simplify() {
+        match difference(self, other) {
             Expression::Integer(n) => return n != Symbol::integer(0),
             Expression::Real(r) => return r != Symbol::real(0.0),
             difference => {
@@ -32,7 +32,7 @@ impl Expression {
     }
 
     pub fn greater(&self, other: &Self) -> bool {
-        match (self - other).simplify() {
+        match difference(self, other) {
             Expression::Integer(n) => return n > Symbol::integer(0),
             Expression::Real(r) => return r > Symbol::real(0.0),
             difference => {
@@ -43,7 +43,7 @@ impl Expression {
     }
 
     pub fn lesser(&self, other: &Self) -> bool {
-        match (self - other).simplify() {
+        match difference(self, other) {
             Expression::Integer(n) => return n < Symbol::integer(0),
             Expression::Real(r) => return r < Symbol::real(0.0),
             difference => {
@@ -54,7 +54,7 @@ impl Expression {
     }
 
     pub fn greater_equal(&self, other: &Self) -> bool {
-        match (self - other).simplify() {
+        match difference(self, other) {
             Expression::Integer(n) => return n == Symbol::integer(0) || n > Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r > Symbol::real(0.0),
             difference => {
@@ -64,7 +64,7 @@ impl Expression {
         }
     }
     pub fn lesser_equal(&self, other: &Self) -> bool {
-        match (self - other).simplify() {
+        match difference(self, other) {
             Expression::Integer(n) => return n == Symbol::integer(0) || n < Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r < Symbol::real(0.0),
             difference => {
@@ -75,6 +75,20 @@ impl Expression {
     }
 }
 
+/**
+ * Simplified difference of two expressions. It is always taken in the same direction, as rounding
+ * and reals that are not collected could give two answers that are not opposite.
+ */
+fn difference(left: &Expression, right: &Expression) -> Expression {
+    if left == right {
+        return Symbol::integer(0).expr();
+    }
+    if left > right {
+        return -(right - left).simplify();
+    }
+    (left - right).simplify()
+}
+
 /**
  * Exact value of a simplified expression made of numbers only: integers, reals, fractions, and
  * the sums and products of them
-- 
2.43.0

