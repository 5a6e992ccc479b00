From 82c6b1afa5c96a51a242e7c533f29366f585a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:48 +0000
Subject: [PATCH 01/21] fix: negate the parsed value in RealAlgebraicNumber's
 ratio parsing closure

The closure passed to Option::map took no argument, so the whole crate did
not compile.
---
 src/algebraic_numbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 79f387e..d32daea 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -202,7 +202,7 @@ fn sign_changes_at(
                 let degree = polynomial.degree().unwrap_or(0);
                 let s = Sign::new(&polynomial.highest_power_coefficient());
                 if degree.is_odd() {
-                    s.map(|| -s)
+                    s.map(|s| -s)
                 } else {
                     s
                 }
-- 
2.43.0


From 6ef83e259ef055cd9d0eed892f9e91fb96c1b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:39 +0000
Subject: [PATCH 02/21] fix: RealAlgebraicNumber::fract of negative rationals
 is self - self.floor()

Ratio::fract truncates toward zero, so fract of -2/3 was -2/3 instead of 1/3,
unlike the documented result and the irrational case.
---
 src/algebraic_numbers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index d32daea..50a3162 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -519,7 +519,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn into_fract(mut self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             let mut interval_shrinker = self.interval_shrinker();
             loop {
@@ -535,7 +535,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn fract(&self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             self.clone().into_fract()
         }
-- 
2.43.0


From f78ca7dc76a5a67ab04e3452ea86bc3587f6ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:01 +0000
Subject: [PATCH 03/21] fix: RootSelector::select_root returned an interval
 bound that is some other root

A bound of the current interval that happens to be a root of any factor was
returned at once even if other candidate roots, among them the actual value,
were still inside the interval, e.g. sqrt(6)+5 over a wide interval became 5.
Count the bound roots with the others and stop only when one root is left.
---
 src/algebraic_numbers.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 50a3162..2a543bb 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -995,33 +995,36 @@ trait RootSelector: Sized {
             mem::swap(&mut factors, &mut factors_temp);
             factors.clear();
             let mut roots_left = 0;
+            let mut bound_root = None;
             for factor in factors_temp.drain(..) {
                 let lower_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&lower_bound),
                 );
-                if lower_bound_sign_changes.is_root {
-                    return lower_bound.into();
-                }
                 let upper_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&upper_bound),
                 );
-                if upper_bound_sign_changes.is_root {
-                    return upper_bound.into();
+                // number of roots in `lower_bound < root <= upper_bound`
+                let mut num_roots = distance(
+                    lower_bound_sign_changes.sign_change_count,
+                    upper_bound_sign_changes.sign_change_count,
+                );
+                if lower_bound_sign_changes.is_root {
+                    num_roots += 1;
+                    bound_root = Some(&lower_bound);
+                } else if upper_bound_sign_changes.is_root {
+                    bound_root = Some(&upper_bound);
                 }
-                if lower_bound_sign_changes.sign_change_count
-                    != upper_bound_sign_changes.sign_change_count
-                {
-                    let num_roots = distance(
-                        lower_bound_sign_changes.sign_change_count,
-                        upper_bound_sign_changes.sign_change_count,
-                    );
+                if num_roots != 0 {
                     roots_left += num_roots;
                     factors.push(factor);
                 }
             }
             if roots_left <= 1 {
+                if let Some(bound_root) = bound_root {
+                    break bound_root.clone().into();
+                }
                 break RealAlgebraicNumber::new_unchecked(
                     factors.remove(0).into_factor(),
                     interval,
-- 
2.43.0


From aaa41555a2f4edf76b2fc1cd9ece273406b0879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:04 +0000
Subject: [PATCH 04/21] fix: checked_recip of irrational numbers returns a
 canonical isolated number

The reversed minimal polynomial could have a negative leading coefficient, and
the outward rounded reciprocal interval could contain other roots of it, giving
an ambiguous number on which later operations panic or pick the wrong root.
---
 src/algebraic_numbers.rs | 57 ++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 2a543bb..e842304 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -641,18 +641,30 @@ impl RealAlgebraicNumber {
             return Some(value.recip().into());
         }
         let mut value = self.clone();
-        value
+        let minimal_polynomial: Polynomial<BigInt> =
+            self.minimal_polynomial().iter().rev().collect();
+        let minimal_polynomial = if minimal_polynomial.highest_power_coefficient().is_negative() {
+            -minimal_polynomial
+        } else {
+            minimal_polynomial
+        };
+        let (_sign, interval_shrinker) = value
             .remove_zero_from_interval()
             .expect("known to be non-zero");
-        let RealAlgebraicNumberData {
-            minimal_polynomial,
-            interval,
-        } = value.into_data();
-        let minimal_polynomial = minimal_polynomial.into_iter().rev().collect();
-        Some(RealAlgebraicNumber::new_unchecked(
-            minimal_polynomial,
-            interval.recip(),
-        ))
+        struct RecipRootSelector<'a>(IntervalShrinker<'a>);
+        impl RootSelector for RecipRootSelector<'_> {
+            fn get_interval(&self) -> DyadicFractionInterval {
+                self.0.interval.recip()
+            }
+            fn shrink_interval(&mut self) {
+                self.0.shrink();
+            }
+        }
+        // rounding in `DyadicFractionInterval::recip` can add other roots to the interval
+        Some(
+            RecipRootSelector(interval_shrinker)
+                .select_root_of_factors(vec![ResultFactor::new(minimal_polynomial)]),
+        )
     }
     pub fn recip(&self) -> Self {
         self.checked_recip()
@@ -956,6 +968,11 @@ struct ResultFactor {
 }
 
 impl ResultFactor {
+    fn new(factor: Polynomial<BigInt>) -> Self {
+        Self {
+            primitive_sturm_sequence: factor.into_primitive_sturm_sequence(),
+        }
+    }
     fn factor(&self) -> Cow<Polynomial<BigInt>> {
         self.primitive_sturm_sequence
             .get(0)
@@ -979,15 +996,17 @@ impl fmt::Debug for ResultFactor {
 trait RootSelector: Sized {
     fn get_interval(&self) -> DyadicFractionInterval;
     fn shrink_interval(&mut self);
-    fn select_root(mut self, polynomial: Polynomial<BigInt>) -> RealAlgebraicNumber {
-        let mut factors: Vec<ResultFactor> = polynomial
-            .factor()
-            .polynomial_factors
-            .into_iter()
-            .map(|factor| ResultFactor {
-                primitive_sturm_sequence: factor.polynomial.into_primitive_sturm_sequence(),
-            })
-            .collect();
+    fn select_root(self, polynomial: Polynomial<BigInt>) -> RealAlgebraicNumber {
+        self.select_root_of_factors(
+            polynomial
+                .factor()
+                .polynomial_factors
+                .into_iter()
+                .map(|factor| ResultFactor::new(factor.polynomial))
+                .collect(),
+        )
+    }
+    fn select_root_of_factors(mut self, mut factors: Vec<ResultFactor>) -> RealAlgebraicNumber {
         let mut factors_temp = Vec::with_capacity(factors.len());
         loop {
             let interval = self.get_interval();
-- 
2.43.0


From 5633f74dae893c95b2878638eaffcc0cd6f58968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:37 +0000
Subject: [PATCH 05/21] fix: factoring missed factors when the highest power
 coefficient is 1 modulo the prime

Hensel lifting leaves the highest power coefficient in one of the lifted
factors when the modular factorization has no separate constant factor.  The
recombination assumes monic factors, so make them all monic.
---
 src/polynomial/factorization_over_integers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/polynomial/factorization_over_integers.rs b/src/polynomial/factorization_over_integers.rs
index 587963a..a34a8f6 100644
--- a/src/polynomial/factorization_over_integers.rs
+++ b/src/polynomial/factorization_over_integers.rs
@@ -542,6 +542,12 @@ impl Polynomial<BigInt> {
 
         modular_factors.retain(|factor| factor.degree() != Some(0));
 
+        // hensel lifting leaves self's highest power coefficient in one of the factors when
+        // there is no separate constant factor to hold it
+        for factor in &mut modular_factors {
+            factor.monic_assign();
+        }
+
         debug_assert!(modular_factors
             .iter()
             .position(|factor| match factor.degree() {
-- 
2.43.0


From 8cb0eec2797a90bae00d46b1bfdd43fa8e36b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:14 +0000
Subject: [PATCH 06/21] fix: DyadicFractionInterval::pow rounds both bounds
 outward for odd exponents

The rounding direction followed the larger magnitude instead of the sign of
each bound, so odd powers of intervals that contain zero excluded valid results
and odd powers of negative points were inverted.
---
 src/interval_arithmetic.rs | 57 ++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 6065524..ad3a536 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1242,42 +1242,57 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
             if upper_bound_numer_is_negative {
                 base_upper_bound_numer = -base_upper_bound_numer;
             }
-            let mut bounds_swapped = base_lower_bound_numer > base_upper_bound_numer;
-            if bounds_swapped {
-                mem::swap(&mut base_lower_bound_numer, &mut base_upper_bound_numer);
-            }
             if exponent.is_even() {
                 lower_bound_numer_is_negative = false;
                 upper_bound_numer_is_negative = false;
-                bounds_swapped = false;
+                if base_lower_bound_numer > base_upper_bound_numer {
+                    mem::swap(&mut base_lower_bound_numer, &mut base_upper_bound_numer);
+                }
                 if contains_zero {
                     base_lower_bound_numer.set_zero();
                 }
             }
-            let mut retval_upper_bound_numer = BigInt::one() << log2_denom;
-            let mut retval_lower_bound_numer = retval_upper_bound_numer.clone();
-            let mut neg_retval_upper_bound_numer = -retval_upper_bound_numer;
+            // multiplies magnitudes, rounding away from zero if `round_up` is set
+            let multiply = |lhs: &BigInt, rhs: &BigInt, round_up: bool| -> BigInt {
+                if round_up {
+                    -((-lhs * rhs) >> log2_denom)
+                } else {
+                    (lhs * rhs) >> log2_denom
+                }
+            };
+            // the magnitude of a negative bound has to be rounded in the opposite direction
+            let lower_round_up = lower_bound_numer_is_negative;
+            let upper_round_up = !upper_bound_numer_is_negative;
+            let mut retval_lower_bound_numer = BigInt::one() << log2_denom;
+            let mut retval_upper_bound_numer = retval_lower_bound_numer.clone();
             loop {
                 if exponent.is_odd() {
-                    retval_lower_bound_numer *= &base_lower_bound_numer;
-                    retval_lower_bound_numer >>= log2_denom;
-                    neg_retval_upper_bound_numer *= &base_upper_bound_numer;
-                    neg_retval_upper_bound_numer >>= log2_denom;
+                    retval_lower_bound_numer = multiply(
+                        &retval_lower_bound_numer,
+                        &base_lower_bound_numer,
+                        lower_round_up,
+                    );
+                    retval_upper_bound_numer = multiply(
+                        &retval_upper_bound_numer,
+                        &base_upper_bound_numer,
+                        upper_round_up,
+                    );
                 }
                 let two = E::one() + E::one();
                 exponent = exponent / two;
                 if exponent.is_zero() {
                     break;
                 }
-                base_lower_bound_numer = &base_lower_bound_numer * &base_lower_bound_numer;
-                base_lower_bound_numer >>= log2_denom;
-                base_upper_bound_numer = -&base_upper_bound_numer * &base_upper_bound_numer;
-                base_upper_bound_numer >>= log2_denom;
-                base_upper_bound_numer = -base_upper_bound_numer;
-            }
-            retval_upper_bound_numer = -neg_retval_upper_bound_numer;
-            if bounds_swapped {
-                mem::swap(&mut retval_lower_bound_numer, &mut retval_upper_bound_numer);
+                base_lower_bound_numer = multiply(
+                    &base_lower_bound_numer,
+                    &base_lower_bound_numer,
+                    lower_round_up,
+                );
+                base_upper_bound_numer = multiply(
+                    &base_upper_bound_numer,
+                    &base_upper_bound_numer,
+                    upper_round_up,
+                );
             }
             if lower_bound_numer_is_negative {
                 retval_lower_bound_numer = -retval_lower_bound_numer;
-- 
2.43.0


From 7ebfadf93b0c91394ed94116584e3d4e2b40ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:50 +0000
Subject: [PATCH 07/21] fix: exp of tiny exact powers of two failed an
 assertion

A series term can be exactly one unit of the working precision.  Stop there and
account for the remaining terms in the upper bound.
---
 src/interval_arithmetic.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index ad3a536..ce84b2d 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -722,8 +722,12 @@ impl DyadicFractionInterval {
             term *= &self;
             term /= i;
             retval += &term;
-            if term.upper_bound_numer.is_one() || term.upper_bound_numer.is_zero() {
-                assert!(term.lower_bound_numer.is_zero());
+            if term.upper_bound_numer.is_zero() {
+                break;
+            }
+            if term.upper_bound_numer.is_one() {
+                // account for the sum of the remaining terms, which is less than this term
+                retval.upper_bound_numer += 1;
                 break;
             }
         }
-- 
2.43.0


From 6a738a6a9aad0703b083c088a1609ff8d1b7a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:37 +0000
Subject: [PATCH 08/21] fix: adding a fractional scalar to a polynomial used
 the wrong multipliers

---
 src/polynomial/add_sub.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/add_sub.rs b/src/polynomial/add_sub.rs
index a7bc3e2..e59d7a3 100644
--- a/src/polynomial/add_sub.rs
+++ b/src/polynomial/add_sub.rs
@@ -57,18 +57,20 @@ fn add_sub_assign_single<
     let GCDAndLCM { gcd, lcm: divisor } = lhs.divisor.gcd_lcm(&rhs_divisor);
     let lhs_divisor = mem::replace(&mut lhs.divisor, divisor);
     let lhs_multiplier = T::divisor_to_element(
-        Cow::Owned(lhs_divisor * &gcd),
+        Cow::Owned(rhs_divisor.exact_div(&gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     let rhs_multiplier = T::divisor_to_element(
-        Cow::Owned(gcd * &rhs_divisor),
+        Cow::Owned(ExactDiv::<T::Divisor>::exact_div(lhs_divisor, gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     if lhs.is_empty() {
         lhs.elements
             .push(T::make_zero_element(Cow::Borrowed(&rhs_numerator)));
     }
-    lhs.elements[0] *= &lhs_multiplier;
+    for lhs_element in &mut lhs.elements {
+        *lhs_element *= &lhs_multiplier;
+    }
     add_sub_assign(&mut lhs.elements[0], rhs_numerator * &rhs_multiplier);
     lhs.normalize();
 }
-- 
2.43.0


From d7a9e9c6eff5aa5bf8f8c3fe68712fce0ae0d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:38 +0000
Subject: [PATCH 09/21] fix: a failed checked_exact_div_assign by a coefficient
 zeroed the polynomial

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 762b6a2..eac88f7 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -346,7 +346,7 @@ fn checked_div_assign_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T,
     lhs: &mut Polynomial<T>,
     rhs: &T,
 ) -> Result<(), ()> {
-    *lhs = checked_div_single(Cow::Owned(mem::replace(lhs, Zero::zero())), rhs).ok_or(())?;
+    *lhs = checked_div_single(Cow::Borrowed(lhs), rhs).ok_or(())?;
     Ok(())
 }
 
-- 
2.43.0


From a04c63533b7d4b4f368d8aea5451733786765e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:40 +0000
Subject: [PATCH 10/21] fix: checked_exact_div of the zero polynomial by a zero
 coefficient succeeded

---
 src/polynomial/div_rem.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index eac88f7..a6746f7 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -336,6 +336,9 @@ fn checked_div_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T, Output
             .collect::<Option<Vec<_>>>()
             .map(Into::into)
     }
+    if T::is_coefficient_zero(rhs) {
+        return None;
+    }
     match lhs {
         Cow::Borrowed(lhs) => do_div(lhs.iter(), rhs),
         Cow::Owned(lhs) => do_div(lhs.into_iter(), rhs),
-- 
2.43.0


From 70229e74bf0e42dbe984be5d76c1b7382782d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:41 +0000
Subject: [PATCH 11/21] fix: checked_powmod with exponent zero did not reduce
 by the modulus

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index a6746f7..4ceb928 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -481,7 +481,7 @@ impl<T: PolynomialDivSupported> Polynomial<T> {
             return None;
         }
         if exponent.is_zero() {
-            return self.to_one_if_nonzero();
+            return self.to_one_if_nonzero()?.checked_rem(modulus);
         }
         let mut base = self.checked_rem(modulus)?;
         if exponent.is_one() {
-- 
2.43.0


From 8892d68c3feb610fade0ae0aaace6a51987021b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:49 +0000
Subject: [PATCH 12/21] fix: next_prime_u32 and next_prime_i32 skip 2

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 78bd4a3..5193091 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,6 +546,9 @@ pub fn prev_prime_i32(v: i32) -> Option<i32> {
 }
 
 pub fn next_prime_u32(mut v: u32) -> Option<u32> {
+    if v < 2 {
+        return Some(2);
+    }
     if v < 3 {
         return Some(3);
     }
-- 
2.43.0


From a105a5760eb8dd879af80d897d418b4491a45daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:31 +0000
Subject: [PATCH 13/21] fix: pow_modular_reduce with exponent zero is not
 reduced modulo one

---
 src/mod_int.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mod_int.rs b/src/mod_int.rs
index f80c53f..bcf81a7 100644
--- a/src/mod_int.rs
+++ b/src/mod_int.rs
@@ -415,7 +415,9 @@ macro_rules! impl_prim_int_modulus {
         impl<E: Integer + Clone + FromPrimitive> ModularReducePow<E> for $t {
             fn pow_modular_reduce<M: Modulus<Self>>(&self, exponent: &E, modulus: M) -> Self {
                 if exponent.is_zero() {
-                    return One::one();
+                    let mut retval = Self::one();
+                    retval.modular_reduce_assign(modulus);
+                    return retval;
                 }
                 let modulus = *modulus.to_modulus();
                 let mut base = *self;
-- 
2.43.0


From 9ce08cbb477d811edec41b826b598aa39a1a3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:56 +0000
Subject: [PATCH 14/21] hook: access to crate-private lattice, array, quadratic
 number and mod-p factorisation code (cfg algebraics_verif)

---
 src/lib.rs         |   2 +
 src/verif_hooks.rs | 358 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 360 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index b197b2b..838075a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,8 @@ pub mod python;
 pub(crate) mod quadratic_numbers;
 pub mod traits;
 pub mod util;
+#[cfg(algebraics_verif)]
+pub mod verif_hooks;
 
 pub use algebraic_numbers::RealAlgebraicNumber;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..3a9a8f2
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,358 @@
+// SPDX-License-Identifier: LGPL-2.1-or-later
+// See Notices.txt for copyright information
+
+//! Access to crate-private items for external verification.
+//! Compiled only with `--cfg algebraics_verif`.
+#![allow(missing_docs)]
+
+use crate::{
+    array2d::{Array2DOwned, Positions},
+    lattice,
+    mod_int::{KnownOddPrime, KnownPrime, ModularInteger},
+    polynomial::Polynomial,
+    quadratic_numbers::{QuadraticPolynomial, RealQuadraticNumber},
+    util::{for_subsets_of_size, ContinueBreak},
+};
+use num_bigint::BigInt;
+use num_rational::Ratio;
+use num_traits::{One, Signed, Zero};
+use rand::Rng;
+use std::{cmp::Ordering, ops::Bound};
+
+// lattices; a basis is a list of column vectors
+
+fn columns<T: Clone>(basis: &[Vec<T>], y_size: usize) -> Array2DOwned<T> {
+    Array2DOwned::from_array(basis.len(), y_size, basis.concat())
+}
+
+fn from_columns<T: Clone>(v: &Array2DOwned<T>) -> Vec<Vec<T>> {
+    (0..v.x_size())
+        .map(|x| (0..v.y_size()).map(|y| v[(x, y)].clone()).collect())
+        .collect()
+}
+
+pub fn inner_product(a: &[BigInt], b: &[BigInt]) -> BigInt {
+    let a = Array2DOwned::from_array(1, a.len(), a.to_vec());
+    let b = Array2DOwned::from_array(1, b.len(), b.to_vec());
+    lattice::inner_product(a.slice(.., ..), b.slice(.., ..))
+}
+
+pub fn gram_schmidt(basis: &[Vec<BigInt>], y_size: usize) -> Vec<Vec<Ratio<BigInt>>> {
+    from_columns(&lattice::gram_schmidt(
+        columns(basis, y_size).slice(.., ..),
+    ))
+}
+
+pub fn lll_reduce(basis: &[Vec<BigInt>], y_size: usize) -> Vec<Vec<BigInt>> {
+    from_columns(&lattice::lll_reduce(columns(basis, y_size)))
+}
+
+pub fn lll_reduce_with_delta(
+    basis: &[Vec<BigInt>],
+    y_size: usize,
+    delta: Ratio<BigInt>,
+) -> Vec<Vec<BigInt>> {
+    from_columns(&lattice::lll_reduce_with_delta(
+        columns(basis, y_size),
+        delta,
+    ))
+}
+
+pub fn lll_reduce_i128(basis: &[Vec<i128>], y_size: usize) -> Vec<Vec<i128>> {
+    from_columns(&lattice::lll_reduce(columns(basis, y_size)))
+}
+
+// two-dimensional arrays
+
+pub type Range = (Bound<usize>, Bound<usize>);
+pub type At = ((usize, usize), i64);
+
+/// runs an iterator: `true` takes from the front, `false` from the back; length before each step
+fn drive<I: DoubleEndedIterator + ExactSizeIterator, T, F: Fn(I::Item) -> T>(
+    mut iter: I,
+    ends: &[bool],
+    f: F,
+) -> Vec<(usize, Option<T>)> {
+    ends.iter()
+        .map(|&front| {
+            let len = iter.len();
+            assert_eq!(iter.size_hint(), (len, Some(len)));
+            let item = if front { iter.next() } else { iter.next_back() };
+            (len, item.map(&f))
+        })
+        .collect()
+}
+
+#[derive(Clone, PartialEq, Eq, Hash, Debug)]
+pub struct Array(Array2DOwned<i64>);
+
+impl Array {
+    pub fn from_array(x_size: usize, y_size: usize, data: Vec<i64>) -> Self {
+        Self(Array2DOwned::from_array(x_size, y_size, data))
+    }
+    pub fn new(x_size: usize, y_size: usize, value: i64) -> Self {
+        Self(Array2DOwned::new(x_size, y_size, value))
+    }
+    pub fn new_with_positions<F: FnMut(usize, usize) -> i64>(
+        x_size: usize,
+        y_size: usize,
+        f: F,
+    ) -> Self {
+        Self(Array2DOwned::new_with_positions(x_size, y_size, f))
+    }
+    pub fn size(&self) -> (usize, usize) {
+        assert_eq!(self.0.size(), (self.0.x_size(), self.0.y_size()));
+        self.0.size()
+    }
+    pub fn get(&self, x: usize, y: usize) -> i64 {
+        self.0[(x, y)]
+    }
+    pub fn set(&mut self, x: usize, y: usize, value: i64) {
+        self.0[(x, y)] = value;
+    }
+    pub fn swap_elements(&mut self, p1: (usize, usize), p2: (usize, usize)) {
+        self.0.swap_elements(p1, p2);
+    }
+    pub fn data(&self) -> &[i64] {
+        self.0.data()
+    }
+    pub fn into_data(self) -> Vec<i64> {
+        self.0.into_data()
+    }
+    pub fn to_owned_array(&self) -> Self {
+        Self(self.0.to_owned())
+    }
+    pub fn display(&self, alternate: bool) -> String {
+        if alternate {
+            format!("{:#}", self.0)
+        } else {
+            format!("{}", self.0)
+        }
+    }
+    pub fn slice(&self, x: Range, y: Range) -> Self {
+        Self(self.0.slice(x, y).to_owned())
+    }
+    pub fn slice_column(&self, x: usize) -> Self {
+        Self(self.0.slice(x, ..).to_owned())
+    }
+    pub fn slice_row(&self, y: usize) -> Self {
+        Self(self.0.slice(.., y).to_owned())
+    }
+    pub fn slice_slice(&self, x: Range, y: Range, x2: Range, y2: Range) -> Self {
+        Self(self.0.slice(x, y).slice(x2, y2).to_owned())
+    }
+    pub fn slice_get(&self, x: Range, y: Range, p: (usize, usize)) -> i64 {
+        self.0.slice(x, y)[p]
+    }
+    pub fn slice_set(&mut self, x: Range, y: Range, p: (usize, usize), value: i64) {
+        self.0.slice_mut(x, y)[p] = value;
+    }
+    pub fn slice_swap(&mut self, x: Range, y: Range, p1: (usize, usize), p2: (usize, usize)) {
+        self.0.slice_mut(x, y).swap_elements(p1, p2);
+    }
+    pub fn slice_iter(&self, x: Range, y: Range, ends: &[bool]) -> Vec<(usize, Option<At>)> {
+        drive(
+            self.0.slice(x, y).into_iter().with_positions(),
+            ends,
+            |(p, v)| (p, *v),
+        )
+    }
+    pub fn slice_iter_mut(
+        &mut self,
+        x: Range,
+        y: Range,
+        ends: &[bool],
+        add: i64,
+    ) -> Vec<(usize, Option<At>)> {
+        let mut slice = self.0.slice_mut(x, y);
+        drive(slice.iter_mut().with_positions(), ends, |(p, v)| {
+            let old = *v;
+            *v += add;
+            (p, old)
+        })
+    }
+    pub fn iter(&self, ends: &[bool]) -> Vec<(usize, Option<i64>)> {
+        drive(self.0.iter(), ends, |v| *v)
+    }
+    pub fn iter_mut(&mut self, ends: &[bool], add: i64) -> Vec<(usize, Option<i64>)> {
+        drive(self.0.iter_mut(), ends, |v| {
+            *v += add;
+            *v
+        })
+    }
+    pub fn into_iter(self, ends: &[bool]) -> Vec<(usize, Option<i64>)> {
+        drive(self.0.into_iter(), ends, |v| v)
+    }
+    pub fn into_iter_with_positions(self, ends: &[bool]) -> Vec<(usize, Option<At>)> {
+        drive(self.0.into_iter().with_positions(), ends, |v| v)
+    }
+    pub fn positions(&self, ends: &[bool]) -> Vec<(usize, Option<(usize, usize)>)> {
+        drive(self.0.positions(), ends, |v| v)
+    }
+    pub fn positions_count_and_last(&self) -> (usize, Option<(usize, usize)>) {
+        let positions: Positions = self.0.positions();
+        (positions.count(), positions.last())
+    }
+}
+
+// quadratic numbers
+
+#[derive(Clone, PartialEq, Eq, Hash, Debug)]
+pub struct Quadratic(RealQuadraticNumber);
+
+impl Quadratic {
+    pub fn new(quadratic: BigInt, linear: BigInt, constant: BigInt) -> Option<Self> {
+        RealQuadraticNumber::new(QuadraticPolynomial {
+            constant_term: constant,
+            linear_term: linear,
+            quadratic_term: quadratic,
+        })
+        .map(Quadratic)
+    }
+    pub fn from_ratio_checked(numerator: BigInt, denominator: BigInt) -> Option<Self> {
+        RealQuadraticNumber::from_ratio_checked(numerator, denominator)
+            .ok()
+            .map(Quadratic)
+    }
+    pub fn from_ratio(value: Ratio<BigInt>) -> Self {
+        Self(value.into())
+    }
+    pub fn from_integer(value: BigInt) -> Self {
+        Self(value.into())
+    }
+    /// quadratic, linear and constant term
+    pub fn terms(&self) -> (BigInt, BigInt, BigInt) {
+        (
+            self.0.quadratic_term().clone(),
+            self.0.linear_term().clone(),
+            self.0.constant_term().clone(),
+        )
+    }
+    pub fn is_ratio(&self) -> bool {
+        self.0.is_ratio()
+    }
+    pub fn is_integer(&self) -> bool {
+        self.0.is_integer()
+    }
+    pub fn to_integer(&self) -> Option<BigInt> {
+        self.0.to_integer()
+    }
+    pub fn to_ratio(&self) -> Option<Ratio<BigInt>> {
+        self.0.to_ratio()
+    }
+    pub fn neg(&self) -> Self {
+        Self(-&self.0)
+    }
+    pub fn abs(&self) -> Self {
+        Self(self.0.abs())
+    }
+    pub fn signum(&self) -> Self {
+        Self(self.0.signum())
+    }
+    pub fn is_positive(&self) -> bool {
+        self.0.is_positive()
+    }
+    pub fn is_negative(&self) -> bool {
+        self.0.is_negative()
+    }
+    pub fn is_zero(&self) -> bool {
+        self.0.is_zero()
+    }
+    pub fn is_one(&self) -> bool {
+        self.0.is_one()
+    }
+    /// at least one operand rational
+    pub fn checked_add(&self, rhs: &Self) -> Option<Self> {
+        self.0.checked_add(&rhs.0).ok().map(Quadratic)
+    }
+    /// at least one operand rational
+    pub fn checked_sub(&self, rhs: &Self) -> Option<Self> {
+        self.0.checked_sub(&rhs.0).ok().map(Quadratic)
+    }
+    /// rational operands only
+    pub fn checked_recip(&self) -> Option<Self> {
+        self.0.checked_recip().ok().map(Quadratic)
+    }
+    pub fn cmp(&self, rhs: &Self) -> Ordering {
+        self.0.cmp(&rhs.0)
+    }
+    pub fn cmp_ratio(&self, rhs: &Ratio<BigInt>) -> Option<Ordering> {
+        self.0.partial_cmp(rhs)
+    }
+    pub fn ratio_cmp(&self, lhs: &Ratio<BigInt>) -> Option<Ordering> {
+        lhs.partial_cmp(&self.0)
+    }
+    /// `<`, `<=`, `>`, `>=`, `==` with the ratio on the right
+    pub fn ratio_operators(&self, rhs: &Ratio<BigInt>) -> [bool; 5] {
+        [
+            self.0 < *rhs,
+            self.0 <= *rhs,
+            self.0 > *rhs,
+            self.0 >= *rhs,
+            self.0 == *rhs,
+        ]
+    }
+}
+
+// factorization modulo a prime; coefficients from the constant term up
+
+fn mod_poly<M: Clone>(coefficients: &[i32], modulus: M) -> Polynomial<ModularInteger<i32, M>>
+where
+    M: crate::mod_int::Modulus<i32> + std::fmt::Debug + std::hash::Hash,
+    ModularInteger<i32, M>: crate::polynomial::PolynomialCoefficient,
+{
+    coefficients
+        .iter()
+        .map(|&v| ModularInteger::new(v, modulus.clone()))
+        .collect()
+}
+
+pub fn distinct_degree_factorization(coefficients: &[i32], prime: i32) -> Vec<Vec<i32>> {
+    mod_poly(coefficients, KnownPrime::new_unsafe(prime))
+        .distinct_degree_factorization()
+        .iter()
+        .map(|p| p.iter().map(|c| *c.value()).collect())
+        .collect()
+}
+
+pub fn same_degree_factorization<R: Rng + ?Sized>(
+    coefficients: &[i32],
+    odd_prime: i32,
+    factor_degree: usize,
+    rng: &mut R,
+) -> Vec<Vec<i32>> {
+    mod_poly(
+        coefficients,
+        KnownOddPrime::new_odd_prime_unsafe(odd_prime),
+    )
+    .same_degree_factorization(factor_degree, rng)
+    .iter()
+    .map(|p| p.iter().map(|c| *c.value()).collect())
+    .collect()
+}
+
+/// the subsets visited, stopping after `limit` of them; whether the visit was stopped
+pub fn subsets_of_size(
+    subset_size: usize,
+    range: std::ops::Range<usize>,
+    limit: usize,
+) -> (Vec<Vec<usize>>, bool) {
+    let mut seen = Vec::new();
+    let stopped = for_subsets_of_size(
+        |v| {
+            seen.push(v.to_vec());
+            if seen.len() == limit {
+                ContinueBreak::Break(())
+            } else {
+                ContinueBreak::Continue
+            }
+        },
+        subset_size,
+        range,
+    );
+    let stopped = match stopped {
+        ContinueBreak::Continue => false,
+        ContinueBreak::Break(()) => true,
+    };
+    (seen, stopped)
+}
-- 
2.43.0


From d36de928e3dd159a3c0317cd0303876f6362681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:01 +0000
Subject: [PATCH 15/21] fix: empty Array2D slices at the far edges panic

---
 src/array2d.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/array2d.rs b/src/array2d.rs
index 4f2aaa6..1bec113 100644
--- a/src/array2d.rs
+++ b/src/array2d.rs
@@ -267,10 +267,15 @@ impl<Data: Array2DData> Array2DBase<Data> {
         }
         let (x_start, x_end) = start_and_end(x_bound.to_slice_bound(), self.x_size);
         let (y_start, y_end) = start_and_end(y_bound.to_slice_bound(), self.y_size);
+        let data_offset = if x_start == x_end || y_start == y_end {
+            0 // empty slices can start after the end of the data
+        } else {
+            get_index_unchecked(self.stride(), x_start, y_start)
+        };
         Array2DSliceData {
             x_size: x_end - x_start,
             y_size: y_end - y_start,
-            data_offset: get_index_unchecked(self.stride(), x_start, y_start),
+            data_offset,
         }
     }
     pub(crate) fn slice<XB: Array2DSliceBound, YB: Array2DSliceBound>(
-- 
2.43.0


From a978a3a4dee4d9fec7618460cb63104b1e6de5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:01 +0000
Subject: [PATCH 16/21] fix: leftover dbg! in Array2D iterators

---
 src/array2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2d.rs b/src/array2d.rs
index 1bec113..11f0b54 100644
--- a/src/array2d.rs
+++ b/src/array2d.rs
@@ -739,7 +739,7 @@ impl<Iter: Iterator + DoubleEndedIterator + ExactSizeIterator> IterOwnedData<Ite
     fn get_unchecked_back(&mut self, x: usize, y: usize) -> Iter::Item {
         let index = get_index_unchecked(self.stride, x, y) - self.offset;
         self.iter
-            .nth_back(self.iter.len() - dbg!(index) - 1)
+            .nth_back(self.iter.len() - index - 1)
             .expect("data shouldn't be empty")
     }
 }
-- 
2.43.0


From 387da51f347db5a0f43760ddc207915f609c17b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:01 +0000
Subject: [PATCH 17/21] fix: reciprocal of a positive rational quadratic number
 is not normalised

---
 src/quadratic_numbers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadratic_numbers.rs b/src/quadratic_numbers.rs
index 6df510d..b8d424d 100644
--- a/src/quadratic_numbers.rs
+++ b/src/quadratic_numbers.rs
@@ -435,9 +435,9 @@ impl RealQuadraticNumber {
     }
     pub(crate) fn checked_recip(&self) -> Result<Self, NonQuadraticResult> {
         if self.is_ratio() {
-            return Self::from_negated_reduced_ratio_checked(
+            return Self::from_ratio_checked(
                 self.linear_term().clone(),
-                self.constant_term().clone(),
+                -self.constant_term(),
             );
         }
         unimplemented!()
-- 
2.43.0


From fb0b6b9eb8a6f4eaeef90c01a70eb0aa6897a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:26 +0000
Subject: [PATCH 18/21] hook: more of the quadratic number operations

---
 src/verif_hooks.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 3a9a8f2..11a4aaa 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -292,6 +292,27 @@ impl Quadratic {
             self.0 == *rhs,
         ]
     }
+    /// `<`, `<=`, `>`, `>=`, `==` with the ratio on the left
+    pub fn ratio_operators_left(&self, lhs: &Ratio<BigInt>) -> [bool; 5] {
+        [
+            *lhs < self.0,
+            *lhs <= self.0,
+            *lhs > self.0,
+            *lhs >= self.0,
+            *lhs == self.0,
+        ]
+    }
+    /// default value, zero, one
+    pub fn constants() -> [Self; 3] {
+        [
+            Self(Default::default()),
+            Self(Zero::zero()),
+            Self(One::one()),
+        ]
+    }
+    pub fn to_f64(&self) -> Option<f64> {
+        self.0.to_f64()
+    }
 }
 
 // factorization modulo a prime; coefficients from the constant term up
-- 
2.43.0


From afef5d6bb1af18b4fff5b12523882fbb5289755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:19 +0000
Subject: [PATCH 19/21] fix: nested polynomial multiplied by zero is not
 normalised

---
 src/polynomial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index ded5912..30ffa18 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -767,6 +767,7 @@ where
         for sub_element in &mut element.elements {
             T::mul_assign_element_by_usize(sub_element, multiplier);
         }
+        element.normalize();
     }
     fn divisor_to_element(
         _v: Cow<Self::Divisor>,
-- 
2.43.0


From 352d1fd0460c26d671800aeeacf29bfa9a97359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:21 +0000
Subject: [PATCH 20/21] fix: nearest division of signed and big integers is
 wrong

---
 src/traits.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 560848c..3482555 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -240,11 +240,15 @@ macro_rules! impl_div_rem_signed_int {
                 let mut remainder = lhs % rhs;
                 let rhs_magnitude = rhs.wrapping_abs() as $u;
                 let remainder_magnitude = remainder.wrapping_abs() as $u;
-                if rhs != <$t>::min_value() && remainder_magnitude > rhs_magnitude / 2 {
-                    let (quotient_offset, remainder_offset) =
-                        if rhs < 0 { (-1, rhs) } else { (1, -rhs) };
-                    quotient = quotient.checked_add(quotient_offset)?;
-                    remainder = remainder.checked_add(remainder_offset)?;
+                if remainder_magnitude > rhs_magnitude / 2 {
+                    // move the remainder towards zero
+                    if (remainder < 0) == (rhs < 0) {
+                        quotient = quotient.checked_add(1)?;
+                        remainder = remainder.checked_sub(rhs)?;
+                    } else {
+                        quotient = quotient.checked_sub(1)?;
+                        remainder = remainder.checked_add(rhs)?;
+                    }
                 }
                 Some((quotient, remainder))
             }
@@ -290,13 +294,14 @@ impl DivRemNearest for BigInt {
         let (mut quotient, mut remainder) = self.div_rem(rhs);
         let rhs_magnitude = rhs.abs();
         let remainder_magnitude = remainder.abs();
-        if &rhs_magnitude - &remainder_magnitude > remainder_magnitude {
-            if rhs.is_negative() {
-                quotient -= 1;
-                remainder -= rhs_magnitude;
-            } else {
+        if &rhs_magnitude - &remainder_magnitude < remainder_magnitude {
+            // move the remainder towards zero
+            if remainder.is_negative() == rhs.is_negative() {
                 quotient += 1;
-                remainder += rhs_magnitude;
+                remainder -= rhs;
+            } else {
+                quotient -= 1;
+                remainder += rhs;
             }
         }
         Some((quotient, remainder))
-- 
2.43.0


From 81a1dd5741fb34741f1c8706e0f61c53cfb4ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:57 +0000
Subject: [PATCH 21/21] hook: nearest division

---
 src/verif_hooks.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 11a4aaa..25c5d14 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -11,6 +11,7 @@ use crate::{
     mod_int::{KnownOddPrime, KnownPrime, ModularInteger},
     polynomial::Polynomial,
     quadratic_numbers::{QuadraticPolynomial, RealQuadraticNumber},
+    traits::DivRemNearest,
     util::{for_subsets_of_size, ContinueBreak},
 };
 use num_bigint::BigInt;
@@ -377,3 +378,19 @@ pub fn subsets_of_size(
     };
     (seen, stopped)
 }
+
+// nearest division
+
+pub trait NearestDivision: Sized {
+    fn checked_nearest(&self, rhs: &Self) -> Option<(Self, Self)>;
+    fn nearest(&self, rhs: &Self) -> (Self, Self);
+}
+
+impl<T: DivRemNearest<DivOutput = T, RemOutput = T>> NearestDivision for T {
+    fn checked_nearest(&self, rhs: &Self) -> Option<(Self, Self)> {
+        self.checked_div_rem_nearest(rhs)
+    }
+    fn nearest(&self, rhs: &Self) -> (Self, Self) {
+        self.div_rem_nearest(rhs)
+    }
+}
-- 
2.43.0

