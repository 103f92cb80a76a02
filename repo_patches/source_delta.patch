From 398d83e541f995df29a3ada61f0dacc9bde7e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 01/41] fix: relative log-density no longer compares addresses
 of the two measures

Zero-sized measures stored next to each other share an address, so the
density of one with respect to another was reported as 0.
---
 measures-core/src/core/density.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/measures-core/src/core/density.rs b/measures-core/src/core/density.rs
index b021466..cea8b02 100644
--- a/measures-core/src/core/density.rs
+++ b/measures-core/src/core/density.rs
@@ -223,14 +223,6 @@ where
 {
     #[inline]
     fn at(&self, x: &T) -> F {
-        // Check if we're computing density with respect to self
-        if std::ptr::eq(
-            (&raw const self.measure).cast::<()>(),
-            (&raw const self.base_measure).cast::<()>(),
-        ) {
-            return F::zero(); // log(dm/dm) = 0
-        }
-
         // Use type-level dispatch based on IsExponentialFamily markers
         <(M1::IsExponentialFamily, M2::IsExponentialFamily) as ExpFamDispatch<T, M1, M2, F>>::compute(
             &self.measure,
-- 
2.43.0


From a9b81574eeb6c442dd16369b7b8e49d11ddc630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 02/41] fix: Binomial log-density includes the binomial
 coefficient

The mass function summed to less than one; it was also NaN for p = 0 and p = 1.
---
 .../src/distributions/discrete/binomial.rs           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index 12c1f94..685befc 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -19,7 +19,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::binomial_coefficient::BinomialCoefficientMeasure;
+use measures_combinators::measures::derived::binomial_coefficient::{
+    BinomialCoefficientMeasure, log_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -151,8 +153,12 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let k = T::from(*x).unwrap();
             let n = T::from(self.n).unwrap();
 
-            // Use log binomial coefficient (this is handled by the base measure)
-            k * self.prob.ln() + (n - k) * (T::one() - self.prob).ln()
+            // 0 * log(0) is 0 here: with p = 0 or p = 1 the impossible outcome never occurs
+            let x_ln_y = |x: T, y: T| if x.is_zero() { T::zero() } else { x * y.ln() };
+
+            log_binomial_coefficient::<T>(self.n, *x)
+                + x_ln_y(k, self.prob)
+                + x_ln_y(n - k, T::one() - self.prob)
         } else {
             T::neg_infinity() // Outside support
         }
-- 
2.43.0


From acecb6698afda964ee13c2a84b29f52c9cfffdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 03/41] fix: NegativeBinomial log-density is the documented
 mass function

The coefficient was missing and the roles of p and 1-p were exchanged with
respect to the documentation, mean() and variance().
---
 .../distributions/discrete/negative_binomial.rs    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/negative_binomial.rs b/measures-distributions/src/distributions/discrete/negative_binomial.rs
index 4d7f4e8..ee5c3fb 100644
--- a/measures-distributions/src/distributions/discrete/negative_binomial.rs
+++ b/measures-distributions/src/distributions/discrete/negative_binomial.rs
@@ -20,7 +20,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
+use measures_combinators::measures::derived::negative_binomial_coefficient::{
+    NegativeBinomialCoefficientMeasure, log_negative_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -159,12 +161,14 @@ where
 // Implementation of HasLogDensity for NegativeBinomial distribution
 impl<T: Float> measures_core::HasLogDensity<u64, T> for NegativeBinomial<T> {
     fn log_density_wrt_root(&self, x: &u64) -> T {
-        // Negative Binomial PMF: P(X = k) = C(k+r-1, k) * p^r * (1-p)^k
-        // log P(X = k) = log(C(k+r-1, k)) + r*log(p) + k*log(1-p)
+        // Negative Binomial PMF (k successes before r failures):
+        // P(X = k) = C(k+r-1, k) * p^k * (1-p)^r
+        // log P(X = k) = log(C(k+r-1, k)) + k*log(p) + r*log(1-p)
         let k = T::from(*x).unwrap();
         let r = T::from(self.r).unwrap();
 
-        // The log binomial coefficient is handled by the base measure
-        r * self.prob.ln() + k * (T::one() - self.prob).ln()
+        log_negative_binomial_coefficient::<T>(self.r, *x)
+            + k * self.prob.ln()
+            + r * (T::one() - self.prob).ln()
     }
 }
-- 
2.43.0


From 3d78fc3bc4f08ce299612cee068b984a88bbfa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 04/41] fix: Geometric log-density at 1 is not NaN when p = 1

---
 measures-distributions/src/distributions/discrete/geometric.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index fd5928b..3ef4b56 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -155,6 +155,9 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Geometric<T> {
         // Geometric PMF: P(X = k) = (1-p)^(k-1) * p for k = 1, 2, 3, ...
         // log P(X = k) = (k-1)*log(1-p) + log(p)
         if *x >= 1 {
+            if *x == 1 {
+                return self.prob.ln(); // avoids 0 * log(0) when p = 1
+            }
             let k = T::from(*x).unwrap();
             (k - T::one()) * (T::one() - self.prob).ln() + self.prob.ln()
         } else {
-- 
2.43.0


From b9522e32983b3acfbd0a8259bbf6098d5d43077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 05/41] fix: sign of the Exponential log-partition function

---
 .../src/distributions/continuous/exponential.rs                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/measures-distributions/src/distributions/continuous/exponential.rs b/measures-distributions/src/distributions/continuous/exponential.rs
index ac5e04e..57a2c27 100644
--- a/measures-distributions/src/distributions/continuous/exponential.rs
+++ b/measures-distributions/src/distributions/continuous/exponential.rs
@@ -100,7 +100,8 @@ where
 
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<T, T>>::NaturalParam, T) {
         let natural_param = [-self.rate];
-        let log_partition = self.rate.ln();
+        // f(x|λ) = exp(-λx + log λ), so A(η) = -log(-η) = -log λ
+        let log_partition = -self.rate.ln();
         (natural_param, log_partition)
     }
 }
-- 
2.43.0


From 013c346a7edd92d5f7629119c713b715a2ae7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 06/41] fix: Geometric log-partition function

The natural form omitted the log(1-p) of the exponent k-1, so it disagreed with
the mass function by log(1-p).
---
 .../src/distributions/discrete/geometric.rs                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index 3ef4b56..bafaed1 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -30,7 +30,7 @@ use num_traits::Float;
 /// This is a member of the exponential family with:
 /// - Natural parameter: η = log(1-p)
 /// - Sufficient statistic: T(x) = x
-/// - Log partition: A(η) = -log(-η/(1+η)) = -log(1-p) - log(p)
+/// - Log partition: A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
 /// - Base measure: Counting measure on {1, 2, 3, ...}
 #[derive(Clone, Debug)]
 pub struct Geometric<T> {
@@ -117,8 +117,8 @@ where
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<u64, T>>::NaturalParam, T) {
         let natural_param = [self.failure_prob().ln()];
 
-        // Log partition: A(η) = -log(1 - exp(η)) = -log(p)
-        let log_partition = -self.prob.ln();
+        // (1-p)^(k-1) p = exp(kη - A(η)) with A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
+        let log_partition = natural_param[0] - self.prob.ln();
 
         (natural_param, log_partition)
     }
-- 
2.43.0


From e43b7109d966b67f35a14a6247606e6f2f84e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 07/41] fix: exponential family evaluators give -inf outside
 the support

eta.T(x) - A(eta) + log h(x) is finite (or NaN) outside the support of
Exponential, Gamma, Beta, ChiSquared, Bernoulli and Geometric, so joint IID
densities and the generated evaluators disagreed with the density there.
---
 .../src/distributions/continuous/beta.rs        |  4 ++++
 .../src/distributions/continuous/chi_squared.rs |  4 ++++
 .../src/distributions/continuous/exponential.rs |  4 ++++
 .../src/distributions/continuous/gamma.rs       |  4 ++++
 .../src/distributions/discrete/bernoulli.rs     |  4 ++++
 .../src/distributions/discrete/binomial.rs      |  4 ++++
 .../src/distributions/discrete/categorical.rs   |  4 ++++
 .../src/distributions/discrete/geometric.rs     |  4 ++++
 .../src/exponential_family/iid.rs               |  4 ++++
 .../src/exponential_family/jit.rs               |  3 +++
 .../src/exponential_family/traits.rs            | 17 +++++++++++++++++
 11 files changed, 56 insertions(+)

diff --git a/measures-distributions/src/distributions/continuous/beta.rs b/measures-distributions/src/distributions/continuous/beta.rs
index 8731d73..b805098 100644
--- a/measures-distributions/src/distributions/continuous/beta.rs
+++ b/measures-distributions/src/distributions/continuous/beta.rs
@@ -105,6 +105,10 @@ where
         [x.ln(), (T::one() - *x).ln()]
     }
 
+    fn supports(&self, x: &T) -> bool {
+        self.in_support(*x)
+    }
+
     fn base_measure(&self) -> <Self as ExponentialFamily<T, T>>::BaseMeasure {
         LebesgueMeasure::<T>::new()
     }
diff --git a/measures-distributions/src/distributions/continuous/chi_squared.rs b/measures-distributions/src/distributions/continuous/chi_squared.rs
index acced1b..e6a86f9 100644
--- a/measures-distributions/src/distributions/continuous/chi_squared.rs
+++ b/measures-distributions/src/distributions/continuous/chi_squared.rs
@@ -115,6 +115,10 @@ where
         [x.ln(), *x]
     }
 
+    fn supports(&self, x: &T) -> bool {
+        self.in_support(*x)
+    }
+
     fn base_measure(&self) -> <Self as ExponentialFamily<T, T>>::BaseMeasure {
         LebesgueMeasure::<T>::new()
     }
diff --git a/measures-distributions/src/distributions/continuous/exponential.rs b/measures-distributions/src/distributions/continuous/exponential.rs
index 57a2c27..6dbcab2 100644
--- a/measures-distributions/src/distributions/continuous/exponential.rs
+++ b/measures-distributions/src/distributions/continuous/exponential.rs
@@ -94,6 +94,10 @@ where
         [*x]
     }
 
+    fn supports(&self, x: &T) -> bool {
+        self.in_support(*x)
+    }
+
     fn base_measure(&self) -> <Self as ExponentialFamily<T, T>>::BaseMeasure {
         LebesgueMeasure::<T>::new()
     }
diff --git a/measures-distributions/src/distributions/continuous/gamma.rs b/measures-distributions/src/distributions/continuous/gamma.rs
index d2ccfda..fef86c6 100644
--- a/measures-distributions/src/distributions/continuous/gamma.rs
+++ b/measures-distributions/src/distributions/continuous/gamma.rs
@@ -112,6 +112,10 @@ where
         [x.ln(), *x]
     }
 
+    fn supports(&self, x: &T) -> bool {
+        self.in_support(*x)
+    }
+
     fn base_measure(&self) -> <Self as ExponentialFamily<T, T>>::BaseMeasure {
         LebesgueMeasure::<T>::new()
     }
diff --git a/measures-distributions/src/distributions/discrete/bernoulli.rs b/measures-distributions/src/distributions/discrete/bernoulli.rs
index 644f60d..79e996a 100644
--- a/measures-distributions/src/distributions/discrete/bernoulli.rs
+++ b/measures-distributions/src/distributions/discrete/bernoulli.rs
@@ -108,6 +108,10 @@ where
         [float_constant::<T>(f64::from(*x))]
     }
 
+    fn supports(&self, x: &u8) -> bool {
+        self.in_support(*x)
+    }
+
     fn base_measure(&self) -> <Self as ExponentialFamily<u8, T>>::BaseMeasure {
         CountingMeasure::<u8>::new()
     }
diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index 685befc..e3a9a5d 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -104,6 +104,10 @@ where
         [T::from(*x).unwrap()]
     }
 
+    fn supports(&self, x: &u64) -> bool {
+        self.in_support(*x)
+    }
+
     fn base_measure(&self) -> <Self as ExponentialFamily<u64, T>>::BaseMeasure {
         BinomialCoefficientMeasure::<T>::new(self.n)
     }
diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index 1dddcad..6e884a2 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -166,6 +166,10 @@ where
         stats
     }
 
+    fn supports(&self, x: &usize) -> bool {
+        self.in_support(*x)
+    }
+
     fn base_measure(&self) -> <Self as ExponentialFamily<usize, T>>::BaseMeasure {
         CountingMeasure::<usize>::new()
     }
diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index bafaed1..c182e8f 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -110,6 +110,10 @@ where
         [T::from(*x).unwrap()]
     }
 
+    fn supports(&self, x: &u64) -> bool {
+        self.in_support(*x)
+    }
+
     fn base_measure(&self) -> <Self as ExponentialFamily<u64, T>>::BaseMeasure {
         CountingMeasure::<u64>::new()
     }
diff --git a/measures-exponential-family/src/exponential_family/iid.rs b/measures-exponential-family/src/exponential_family/iid.rs
index 6a76ceb..ec86aac 100644
--- a/measures-exponential-family/src/exponential_family/iid.rs
+++ b/measures-exponential-family/src/exponential_family/iid.rs
@@ -281,6 +281,10 @@ where
         (natural_params, log_partition)
     }
 
+    fn supports(&self, xs: &Vec<X>) -> bool {
+        xs.iter().all(|x| self.distribution.supports(x))
+    }
+
     /// Override `exp_fam_log_density` to handle IID sample size scaling correctly
     ///
     /// This enables the standard API: `iid_normal.log_density().at(&samples)`
diff --git a/measures-exponential-family/src/exponential_family/jit.rs b/measures-exponential-family/src/exponential_family/jit.rs
index 72fb1ed..08be548 100644
--- a/measures-exponential-family/src/exponential_family/jit.rs
+++ b/measures-exponential-family/src/exponential_family/jit.rs
@@ -112,6 +112,9 @@ where
     let base_measure = distribution.base_measure().clone();
 
     move |x: &X| -> F {
+        if !distribution.supports(x) {
+            return F::neg_infinity();
+        }
         let sufficient_stat = distribution.sufficient_statistic(x);
         let eta_dot_t = natural_param.dot(&sufficient_stat);
         let log_h = base_measure.log_density_wrt_root(x);
diff --git a/measures-exponential-family/src/exponential_family/traits.rs b/measures-exponential-family/src/exponential_family/traits.rs
index beaa02e..6eb933c 100644
--- a/measures-exponential-family/src/exponential_family/traits.rs
+++ b/measures-exponential-family/src/exponential_family/traits.rs
@@ -71,6 +71,16 @@ pub trait ExponentialFamily<X: Clone, F: Float>: Clone {
     /// Get the base measure for this exponential family
     fn base_measure(&self) -> Self::BaseMeasure;
 
+    /// Does the distribution give `x` positive density?
+    ///
+    /// η·T(x) - A(η) says nothing about the support, so the exponential family
+    /// evaluators return negative infinity where this is false. Distributions
+    /// with a restricted support override it.
+    #[inline]
+    fn supports(&self, _x: &X) -> bool {
+        true
+    }
+
     /// Exponential family log-density computation with automatic chain rule.
     ///
     /// Computes: η·T(x) - A(η) + `log(d(base_measure)/d(root_measure))(x)`
@@ -87,6 +97,10 @@ pub trait ExponentialFamily<X: Clone, F: Float>: Clone {
         Self::NaturalParam: DotProduct<Self::SufficientStat, Output = F>,
         Self::BaseMeasure: HasLogDensity<X, F>,
     {
+        if !self.supports(x) {
+            return F::neg_infinity();
+        }
+
         let (natural_params, log_partition) = self.natural_and_log_partition();
         let sufficient_stats = self.sufficient_statistic(x);
 
@@ -176,6 +190,9 @@ where
     if samples.is_empty() {
         return F::zero();
     }
+    if samples.iter().any(|x| !distribution.supports(x)) {
+        return F::neg_infinity();
+    }
 
     let (natural_params, log_partition) = distribution.natural_and_log_partition();
 
-- 
2.43.0


From f61214b36fb2f7089acaacf1bc33dc1c360996cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 08/41] fix: sum-to-one checks allow for the rounding of the
 number type

Categorical::<f32>::uniform(10) and three-component f32 mixtures were rejected.
---
 .../src/measures/combinators/superposition.rs                 | 4 +++-
 .../src/distributions/discrete/categorical.rs                 | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 36cdcd8..e51ad1d 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -44,8 +44,10 @@ impl<M, F: Float> MixtureMeasure<M, F> {
         );
 
         let weight_sum: F = weights.iter().copied().fold(F::zero(), |acc, w| acc + w);
+        // Allow for the rounding of one addition per component in F
+        let rounding = F::epsilon() * F::from(4 * weights.len()).unwrap();
         assert!(
-            (weight_sum - F::one()).abs() < F::from(1e-10).unwrap(),
+            (weight_sum - F::one()).abs() < F::from(1e-10).unwrap().max(rounding),
             "Weights must sum to 1"
         );
 
diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index 6e884a2..839e2b3 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -52,8 +52,10 @@ impl<T: Float + std::iter::Sum> Categorical<T> {
         );
 
         let sum: T = probs.iter().copied().sum();
+        // Allow for the rounding of one addition per category in T
+        let rounding = T::epsilon() * T::from(4 * probs.len()).unwrap();
         assert!(
-            (sum - T::one()).abs() < T::from(1e-10).unwrap(),
+            (sum - T::one()).abs() < T::from(1e-10).unwrap().max(rounding),
             "Probabilities must sum to 1"
         );
 
-- 
2.43.0


From a4ad4ace21c6647e41be11e53fd9c56377bfb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 09/41] fix: Bernoulli and Categorical from_natural do not
 overflow

Natural parameters above 709 made exp overflow, and inf/inf was rejected as an
invalid probability.
---
 .../src/distributions/discrete/bernoulli.rs      |  9 +++++++--
 .../src/distributions/discrete/categorical.rs    | 16 ++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/bernoulli.rs b/measures-distributions/src/distributions/discrete/bernoulli.rs
index 79e996a..9c5920d 100644
--- a/measures-distributions/src/distributions/discrete/bernoulli.rs
+++ b/measures-distributions/src/distributions/discrete/bernoulli.rs
@@ -99,8 +99,13 @@ where
     fn from_natural(param: <Self as ExponentialFamily<u8, T>>::NaturalParam) -> Self {
         let [eta] = param;
         // η = log(p/(1-p)) => p = exp(η)/(1 + exp(η)) = sigmoid(η)
-        let exp_eta = eta.exp();
-        let prob = exp_eta / (T::one() + exp_eta);
+        // (written with exp(-|η|), which cannot overflow)
+        let exp_neg = (-eta.abs()).exp();
+        let prob = if eta >= T::zero() {
+            (T::one() + exp_neg).recip()
+        } else {
+            exp_neg / (T::one() + exp_neg)
+        };
         Self::new(prob)
     }
 
diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index 839e2b3..fa71dd9 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -136,19 +136,23 @@ where
         let k = param.len() + 1; // Number of categories
         let mut probs = Vec::with_capacity(k);
 
-        // Compute exp(η_i) for i = 0, ..., K-2
-        let exp_etas: Vec<T> = param.iter().map(|&eta| eta.exp()).collect();
+        // Shift by the largest η (η = 0 for the last category) so that exp cannot overflow
+        let max_eta = param.iter().copied().fold(T::zero(), T::max);
 
-        // Compute normalization constant: 1 + Σᵢ exp(ηᵢ)
-        let normalizer = T::one() + exp_etas.iter().copied().sum::<T>();
+        // Compute exp(η_i - max) for i = 0, ..., K-2
+        let exp_etas: Vec<T> = param.iter().map(|&eta| (eta - max_eta).exp()).collect();
+        let exp_last = (-max_eta).exp();
+
+        // Compute normalization constant: exp(-max) + Σᵢ exp(ηᵢ - max)
+        let normalizer = exp_last + exp_etas.iter().copied().sum::<T>();
 
         // Compute probabilities: pᵢ = exp(ηᵢ) / normalizer for i < K-1
         for &exp_eta in &exp_etas {
             probs.push(exp_eta / normalizer);
         }
 
-        // Last probability: pₖ₋₁ = 1 / normalizer
-        probs.push(T::one() / normalizer);
+        // Last probability: pₖ₋₁ = exp(-max) / normalizer
+        probs.push(exp_last / normalizer);
 
         Self::new(probs)
     }
-- 
2.43.0


From 912c86d11b67efb6e64dca2ab36cb5e223626125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 10/41] fix: logit transform does not overflow for large |y|

---
 .../src/measures/combinators/pushforward.rs      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/pushforward.rs b/measures-combinators/src/measures/combinators/pushforward.rs
index 7ebf117..86b56b7 100644
--- a/measures-combinators/src/measures/combinators/pushforward.rs
+++ b/measures-combinators/src/measures/combinators/pushforward.rs
@@ -165,14 +165,20 @@ pub mod transforms {
     ) {
         let forward = |x: &F| (*x / (F::one() - *x)).ln();
         let inverse = |y: &F| {
-            let exp_y = y.exp();
-            exp_y / (F::one() + exp_y)
+            // sigmoid(y), written with exp(-|y|), which cannot overflow
+            let e = (-y.abs()).exp();
+            if *y >= F::zero() {
+                (F::one() + e).recip()
+            } else {
+                e / (F::one() + e)
+            }
         };
         let log_abs_det_jacobian = |y: &F| {
             // d/dy sigmoid(y) = sigmoid(y) * (1 - sigmoid(y))
-            // log|det| = log(sigmoid(y)) + log(1 - sigmoid(y)) = -y - 2*log(1 + exp(-y))
-            let exp_neg_y = (-*y).exp();
-            -(*y) - (F::one() + exp_neg_y).ln() - (F::one() + exp_neg_y).ln()
+            // log|det| = log(sigmoid(y)) + log(1 - sigmoid(y)) = -y - 2*log(1 + exp(-y)),
+            // which is even in y
+            let e = (-y.abs()).exp();
+            -y.abs() - e.ln_1p() - e.ln_1p()
         };
 
         (forward, inverse, log_abs_det_jacobian)
-- 
2.43.0


From 726e2b4ecc952268ac7bf690bad3e9f8d743a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 11/41] fix: pushforward gives points outside the image of the
 transformation density zero

exp_transform evaluated at y <= 0 gave NaN, and reported y in the support.
---
 .../src/measures/combinators/pushforward.rs                 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/measures-combinators/src/measures/combinators/pushforward.rs b/measures-combinators/src/measures/combinators/pushforward.rs
index 86b56b7..ea6bf6d 100644
--- a/measures-combinators/src/measures/combinators/pushforward.rs
+++ b/measures-combinators/src/measures/combinators/pushforward.rs
@@ -63,8 +63,9 @@ where
 
     fn in_support(&self, y: f64) -> bool {
         // y is in support if f⁻¹(y) is in support of the base measure
+        // (an inverse image that is not a real number means y is outside the image of f)
         let x = (self.inverse)(&y);
-        self.base_measure.in_support(x)
+        x.is_finite() && self.base_measure.in_support(x)
     }
 
     fn root_measure(&self) -> Self::RootMeasure {
@@ -83,6 +84,9 @@ where
         // Change of variables formula:
         // log(dν/dλ)(y) = log(dμ/dλ)(f⁻¹(y)) + log|det(Df⁻¹(y))|
         let x = (self.inverse)(y);
+        if !x.is_finite() {
+            return f64::NEG_INFINITY; // y is outside the image of f
+        }
         let base_log_density = self.base_measure.log_density_wrt_root(&x);
         let log_jacobian = (self.log_abs_det_jacobian)(y);
 
-- 
2.43.0


From f9175c309689e1e2667df871831d4d70e6a81d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 12/41] fix: log-gamma of the distribution interpreter is
 accurate above 12

---
 .../src/distributions/final_tagless.rs                 | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index a48772f..3b0ebf3 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -293,16 +293,10 @@ impl DistributionEval {
         }
     }
 
-    /// Log-gamma function approximation (Stirling's approximation for large values)
+    /// Log-gamma function
     #[must_use]
     pub fn log_gamma(x: f64) -> f64 {
-        if x > 12.0 {
-            // Stirling's approximation for large x
-            (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln()
-        } else {
-            // Use built-in gamma function for smaller values
-            special::Gamma::ln_gamma(x).0
-        }
+        special::Gamma::ln_gamma(x).0
     }
 }
 
-- 
2.43.0


From 69dd7cf8951fc930ea5ff39ab7b13fd3f4c3e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 13/41] fix: mixture density ignores zero-weight components and
 handles infinite densities

---
 .../src/measures/combinators/superposition.rs              | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index e51ad1d..4ffd543 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -119,6 +119,8 @@ where
             .components
             .iter()
             .zip(&self.weights)
+            // a component of weight zero contributes nothing, whatever its density
+            .filter(|&(_, &weight)| weight != F::zero())
             .map(|(component, &weight)| {
                 let log_density = component.log_density_wrt_root(x);
                 weight.ln() + log_density
@@ -143,8 +145,9 @@ fn log_sum_exp<F: Float>(log_values: &[F]) -> F {
         .copied()
         .fold(F::neg_infinity(), |acc, x| if x > acc { x } else { acc });
 
-    if max_val.is_infinite() && max_val < F::zero() {
-        return F::neg_infinity();
+    // All terms zero, or some term infinite (where x - max would be NaN)
+    if max_val.is_infinite() {
+        return max_val;
     }
 
     // Compute log(Σᵢ exp(xᵢ - max)) + max
-- 
2.43.0


From 14242a12cc270ecc6c9cbc0a2c15dc0d272fd6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 14/41] fix: binomial coefficients do not lose precision for
 large n

---
 .../measures/derived/binomial_coefficient.rs  | 41 +++++++++++--------
 .../derived/negative_binomial_coefficient.rs  | 28 +++++--------
 2 files changed, 33 insertions(+), 36 deletions(-)

diff --git a/measures-combinators/src/measures/derived/binomial_coefficient.rs b/measures-combinators/src/measures/derived/binomial_coefficient.rs
index 22433a7..53b4b30 100644
--- a/measures-combinators/src/measures/derived/binomial_coefficient.rs
+++ b/measures-combinators/src/measures/derived/binomial_coefficient.rs
@@ -1,7 +1,6 @@
 use crate::measures::primitive::counting::CountingMeasure;
 use measures_core::{False, HasLogDensity, Measure, MeasureMarker};
-use num_traits::{Float, ToPrimitive};
-use special::Gamma as GammaTrait;
+use num_traits::Float;
 
 /// A binomial coefficient measure for discrete distributions.
 ///
@@ -50,10 +49,12 @@ impl<F: Float> Measure<u64> for BinomialCoefficientMeasure<F> {
     }
 }
 
-/// Compute log binomial coefficient log(C(n, k)) using log-gamma functions
+/// Compute log binomial coefficient log(C(n, k))
 ///
-/// This provides high accuracy for all values of n and k by using the identity:
-/// log(C(n,k)) = log(Γ(n+1)) - log(Γ(k+1)) - log(Γ(n-k+1))
+/// This provides high accuracy for all values of n and k. A difference of log-gamma functions
+/// cancels when n is large, so the terms are combined analytically instead: with k ≤ n - k,
+/// - for small k, C(n,k) = ∏ᵢ (n-k+i)/i for i = 1..k, whose factors all exceed one;
+/// - for larger k, Stirling's series for the three factorials, with the leading terms combined.
 ///
 /// For k > n, returns negative infinity (coefficient is 0).
 #[inline]
@@ -63,20 +64,24 @@ pub fn log_binomial_coefficient<F: Float>(n: u64, k: u64) -> F {
         return F::neg_infinity();
     }
 
-    // Use the more stable log-gamma approach
-    if let (Some(n_f64), Some(k_f64)) = (n.to_f64(), k.to_f64()) {
-        let log_coeff = {
-            let (ln_gamma_n_plus_1, _) = special::Gamma::ln_gamma(n_f64 + 1.0);
-            let (ln_gamma_k_plus_1, _) = special::Gamma::ln_gamma(k_f64 + 1.0);
-            let (ln_gamma_n_minus_k_plus_1, _) = special::Gamma::ln_gamma(n_f64 - k_f64 + 1.0);
-            ln_gamma_n_plus_1 - ln_gamma_k_plus_1 - ln_gamma_n_minus_k_plus_1
-        };
-        F::from(log_coeff).unwrap()
+    let k = k.min(n - k);
+    let rest = (n - k) as f64;
+    let log_coeff = if k <= 32 {
+        (1..=k).map(|i| ((rest + i as f64) / i as f64).ln()).sum()
     } else {
-        // Fallback for types that don't convert to f64
-        // This should rarely happen in practice
-        F::zero()
-    }
+        let (n, k) = (n as f64, k as f64);
+        k * (n / k).ln() - rest * (-k / n).ln_1p()
+            + 0.5 * (n / (2.0 * std::f64::consts::PI * k * rest)).ln()
+            + (stirling_correction(n) - stirling_correction(k) - stirling_correction(rest))
+    };
+    F::from(log_coeff).unwrap()
+}
+
+/// The terms of Stirling's series for log(n!) that vanish for large n.
+fn stirling_correction(n: f64) -> f64 {
+    let i = 1.0 / n;
+    let i2 = i * i;
+    i * (1.0 / 12.0 - i2 * (1.0 / 360.0 - i2 * (1.0 / 1260.0 - i2 / 1680.0)))
 }
 
 /// Implement `HasLogDensity` for `BinomialCoefficientMeasure`
diff --git a/measures-combinators/src/measures/derived/negative_binomial_coefficient.rs b/measures-combinators/src/measures/derived/negative_binomial_coefficient.rs
index 2e64a53..381a39d 100644
--- a/measures-combinators/src/measures/derived/negative_binomial_coefficient.rs
+++ b/measures-combinators/src/measures/derived/negative_binomial_coefficient.rs
@@ -1,7 +1,7 @@
+use crate::measures::derived::binomial_coefficient::log_binomial_coefficient;
 use crate::measures::primitive::counting::CountingMeasure;
 use measures_core::{False, HasLogDensity, Measure, MeasureMarker};
-use num_traits::{Float, ToPrimitive};
-use special::Gamma as GammaTrait;
+use num_traits::Float;
 
 /// A negative binomial coefficient measure for discrete distributions.
 ///
@@ -51,27 +51,19 @@ impl<F: Float> Measure<u64> for NegativeBinomialCoefficientMeasure<F> {
     }
 }
 
-/// Compute log negative binomial coefficient log(C(x+r-1, x)) using log-gamma functions
+/// Compute log negative binomial coefficient log(C(x+r-1, x))
 ///
-/// This provides high accuracy for all values of x and r by using the identity:
-/// log(C(x+r-1,x)) = log(Γ(x+r)) - log(Γ(x+1)) - log(Γ(r))
+/// For r = 0 the coefficient is 1 at x = 0 and 0 (negative infinity) elsewhere.
 #[inline]
 #[must_use]
 pub fn log_negative_binomial_coefficient<F: Float>(r: u64, x: u64) -> F {
-    // Use the log-gamma approach for numerical stability
-    if let (Some(r_f64), Some(x_f64)) = (r.to_f64(), x.to_f64()) {
-        let log_coeff = {
-            let (ln_gamma_x_plus_r, _) = special::Gamma::ln_gamma(x_f64 + r_f64);
-            let (ln_gamma_x_plus_1, _) = special::Gamma::ln_gamma(x_f64 + 1.0);
-            let (ln_gamma_r, _) = special::Gamma::ln_gamma(r_f64);
-            ln_gamma_x_plus_r - ln_gamma_x_plus_1 - ln_gamma_r
-        };
-        F::from(log_coeff).unwrap()
-    } else {
-        // Fallback for types that don't convert to f64
-        // This should rarely happen in practice
-        F::zero()
+    if x == 0 {
+        return F::zero();
     }
+    if r == 0 {
+        return F::neg_infinity();
+    }
+    log_binomial_coefficient::<F>(x.saturating_add(r - 1), x)
 }
 
 /// Implement `HasLogDensity` for `NegativeBinomialCoefficientMeasure`
-- 
2.43.0


From 5ddd995c9ade6301802961e9931f5dd176316b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 15/41] fix: Cauchy and Student t log-densities do not overflow
 in the tails

---
 .../src/distributions/continuous/cauchy.rs           | 12 +++++++++---
 .../src/distributions/continuous/student_t.rs        | 10 +++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/measures-distributions/src/distributions/continuous/cauchy.rs b/measures-distributions/src/distributions/continuous/cauchy.rs
index ee64d76..f9f181a 100644
--- a/measures-distributions/src/distributions/continuous/cauchy.rs
+++ b/measures-distributions/src/distributions/continuous/cauchy.rs
@@ -44,6 +44,12 @@ pub struct Cauchy<T> {
 /// Parameters for Cauchy distribution: (location, scale)
 pub type CauchyParams<T> = (T, T);
 
+/// `log(1 + z²)`, computed without overflowing in the square.
+fn log_one_plus_square<T: Float>(z: T) -> T {
+    let log_root = z.hypot(T::one()).ln();
+    log_root + log_root
+}
+
 impl<T: Float> Cauchy<T> {
     /// Create a new Cauchy distribution with given location and scale parameters.
     ///
@@ -92,7 +98,7 @@ impl<T: Float> Cauchy<T> {
         let standardized = (x - self.location) / self.scale;
         let pi = T::from(PI).unwrap();
 
-        -pi.ln() - self.scale.ln() - (T::one() + standardized * standardized).ln()
+        -pi.ln() - self.scale.ln() - log_one_plus_square(standardized)
     }
 
     /// Compute log-density for IID samples efficiently using decomposition.
@@ -131,7 +137,7 @@ impl<T: Float + FloatConst> HasLogDensity<T, T> for Cauchy<T> {
     fn log_density_wrt_root(&self, x: &T) -> T {
         let pi = float_constant::<T>(PI);
         let standardized = (*x - self.location) / self.scale;
-        -(T::one() + standardized * standardized).ln() - self.scale.ln() - pi.ln()
+        -log_one_plus_square(standardized) - self.scale.ln() - pi.ln()
     }
 }
 
@@ -156,7 +162,7 @@ impl<T: Float + FloatConst + NumCast> HasLogDensityDecomposition<T, CauchyParams
             .mixed_term(
                 |x: &T, (location, scale): &CauchyParams<T>| {
                     let standardized = (*x - *location) / *scale;
-                    -(T::one() + standardized * standardized).ln()
+                    -log_one_plus_square(standardized)
                 },
                 "negative log of standardized squared plus one",
             )
diff --git a/measures-distributions/src/distributions/continuous/student_t.rs b/measures-distributions/src/distributions/continuous/student_t.rs
index 736ecbf..15b5f61 100644
--- a/measures-distributions/src/distributions/continuous/student_t.rs
+++ b/measures-distributions/src/distributions/continuous/student_t.rs
@@ -43,6 +43,11 @@ pub struct StudentT<T> {
 /// Parameters for Student's t distribution: just the degrees of freedom
 pub type StudentTParams<T> = T;
 
+/// `(ν+1)/2 * log(1 + x²/ν)`, computed without overflowing in the square.
+fn log_kernel_magnitude(x: f64, nu: f64) -> f64 {
+    (nu + 1.0) * (x / nu.sqrt()).hypot(1.0).ln()
+}
+
 impl<T: Float> StudentT<T> {
     /// Create a new Student's t-distribution with given degrees of freedom.
     ///
@@ -83,7 +88,7 @@ impl<T: Float> StudentT<T> {
             - 0.5 * (nu_f64 * std::f64::consts::PI).ln();
 
         // Compute -(ν+1)/2 * log(1 + x²/ν)
-        let log_kernel = -f64::midpoint(nu_f64, 1.0) * (1.0 + x_f64 * x_f64 / nu_f64).ln();
+        let log_kernel = -log_kernel_magnitude(x_f64, nu_f64);
 
         T::from(log_normalization + log_kernel).unwrap()
     }
@@ -150,8 +155,7 @@ impl<T: Float + FloatConst + std::fmt::Debug> HasLogDensityDecomposition<T, Stud
                 |x: &T, nu: &StudentTParams<T>| {
                     let nu_f64 = nu.to_f64().unwrap();
                     let x_f64 = x.to_f64().unwrap();
-                    let log_kernel =
-                        -f64::midpoint(nu_f64, 1.0) * (1.0 + x_f64 * x_f64 / nu_f64).ln();
+                    let log_kernel = -log_kernel_magnitude(x_f64, nu_f64);
                     T::from(log_kernel).unwrap()
                 },
                 "negative scaled log of one plus standardized squared",
-- 
2.43.0


From f0ab3422b3b15f9f8b57b4f5f46f663380bc0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 16/41] fix: safe_convert is exact for integers beyond 2^53

---
 measures-core/src/core/utils.rs | 37 ++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/measures-core/src/core/utils.rs b/measures-core/src/core/utils.rs
index 026e608..6b095a3 100644
--- a/measures-core/src/core/utils.rs
+++ b/measures-core/src/core/utils.rs
@@ -2,6 +2,31 @@
 
 use num_traits::Float;
 
+/// Converts through `f64`, except that integers too large to be exact in `f64` are
+/// converted as integers.
+fn convert<T, U>(value: &T) -> Option<U>
+where
+    T: num_traits::ToPrimitive,
+    U: num_traits::FromPrimitive,
+{
+    // 2^53, the limit up to which every integer is an `f64`
+    const EXACT: f64 = 9_007_199_254_740_992.0;
+
+    let float = value.to_f64()?;
+    if float.abs() >= EXACT {
+        let as_integer = match (value.to_i128(), value.to_u128()) {
+            (Some(integer), _) => U::from_i128(integer),
+            // the half of the range of `u128` that `i128` does not cover
+            (None, Some(integer)) => U::from_u128(integer),
+            (None, None) => None,
+        };
+        if as_integer.is_some() || value.to_i128().is_some_and(|i| float as i128 != i) {
+            return as_integer;
+        }
+    }
+    U::from_f64(float)
+}
+
 /// Safe conversion from one numeric type to another.
 ///
 /// This provides a safer alternative to `.unwrap()` calls throughout the codebase.
@@ -11,11 +36,7 @@ where
     T: num_traits::ToPrimitive,
     U: num_traits::FromPrimitive + Default,
 {
-    if let Some(f64_val) = value.to_f64() {
-        U::from_f64(f64_val).unwrap_or_default()
-    } else {
-        U::default()
-    }
+    convert(&value).unwrap_or_default()
 }
 
 /// Safe conversion with explicit fallback value.
@@ -24,11 +45,7 @@ where
     T: num_traits::ToPrimitive,
     U: num_traits::FromPrimitive + Copy,
 {
-    if let Some(f64_val) = value.to_f64() {
-        U::from_f64(f64_val).unwrap_or(fallback)
-    } else {
-        fallback
-    }
+    convert(&value).unwrap_or(fallback)
 }
 
 /// Safe conversion for Float types with better error handling.
-- 
2.43.0


From 742e206d6c739c474b3f3b82c722057f0702e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 17/41] fix: joint log-density of no samples is zero whatever
 the parameters

---
 measures-core/src/core/log_density_decomposition.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/measures-core/src/core/log_density_decomposition.rs b/measures-core/src/core/log_density_decomposition.rs
index 396df2d..6026847 100644
--- a/measures-core/src/core/log_density_decomposition.rs
+++ b/measures-core/src/core/log_density_decomposition.rs
@@ -152,6 +152,10 @@ impl<X, Theta, F: Float> LogDensityDecomposition<X, Theta, F> {
     where
         F: std::iter::Sum,
     {
+        // Nothing is observed: in particular not zero times an infinite term
+        if samples.is_empty() {
+            return F::zero();
+        }
         let n = F::from(samples.len()).unwrap();
 
         // Sum data terms across all samples
-- 
2.43.0


From 7a8761dbf4d1b430112914a2d1ec92a4888d4cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 18/41] fix: multiplying by zero no longer hides evaluation
 errors

---
 symbolic-math/src/expr.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 4ad3a3a..dea0c06 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -196,7 +196,6 @@ impl Expr {
 
             Expr::Mul(left, right) => match (left.as_ref(), right.as_ref()) {
                 (Expr::Const(a), Expr::Const(b)) => Ok(a * b),
-                (Expr::Const(0.0), _) | (_, Expr::Const(0.0)) => Ok(0.0),
                 (Expr::Const(1.0), expr) => expr.evaluate(vars),
                 (expr, Expr::Const(1.0)) => expr.evaluate(vars),
                 _ => Ok(left.evaluate(vars)? * right.evaluate(vars)?),
-- 
2.43.0


From 43911237698699cf151a0f83df267f51da7d6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 19/41] fix: evaluate_batch_optimized reports undefined
 variables instead of binding them to 0

---
 symbolic-math/src/expr.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index dea0c06..057a282 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -304,15 +304,8 @@ impl Expr {
                 results.push(self.evaluate_single_var(var_name, value)?);
             }
         } else {
-            // Standard path with HashMap reuse
-            let mut var_map = HashMap::with_capacity(vars.len());
-
-            // Pre-populate with any constants or other variables (if needed)
-            for var in &vars {
-                if var != var_name {
-                    var_map.insert(var.clone(), 0.0); // Will be overwritten if needed
-                }
-            }
+            // Standard path with HashMap reuse; any other variable is undefined
+            let mut var_map = HashMap::with_capacity(1);
 
             for &value in values {
                 var_map.insert(var_name.to_string(), value);
-- 
2.43.0


From 47e9eae1662c19d10bfb65a4f0812bf0bf08670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 20/41] fix: simplify applies power and logarithm rules only to
 bases known to be positive

---
 symbolic-math/src/expr.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 057a282..54d6d05 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -440,7 +440,22 @@ impl Expr {
         self.evaluate_single_var(var_name, value)
     }
 
+    /// Whether the expression is known to be positive when all its variables are positive
+    fn is_positive(&self) -> bool {
+        match self {
+            Expr::Const(value) => *value > 0.0,
+            Expr::Var(_) | Expr::Exp(_) => true,
+            Expr::Add(left, right) | Expr::Mul(left, right) | Expr::Div(left, right) => {
+                left.is_positive() && right.is_positive()
+            }
+            Expr::Pow(base, _) | Expr::Sqrt(base) => base.is_positive(),
+            Expr::Sub(..) | Expr::Ln(_) | Expr::Sin(_) | Expr::Cos(_) | Expr::Neg(_) => false,
+        }
+    }
+
     /// Simplify the expression using algebraic rules
+    ///
+    /// Variables are assumed to be positive.
     #[must_use]
     pub fn simplify(self) -> Self {
         match self {
@@ -486,8 +501,11 @@ impl Expr {
                 (_, Expr::Const(0.0)) => Expr::Const(1.0),
                 (expr, Expr::Const(1.0)) => expr,
                 (Expr::Const(1.0), _) => Expr::Const(1.0),
-                // (x^a)^b = x^(a*b)
-                (Expr::Pow(inner_base, inner_exp), outer_exp) => {
+                // (x^a)^b = x^(a*b), for positive x or integer b
+                (Expr::Pow(inner_base, inner_exp), outer_exp)
+                    if inner_base.is_positive()
+                        || matches!(outer_exp, Expr::Const(b) if b.fract() == 0.0) =>
+                {
                     let combined_exp = Expr::Mul(inner_exp, Box::new(outer_exp));
                     Expr::Pow(inner_base, Box::new(combined_exp.simplify()))
                 }
@@ -497,8 +515,8 @@ impl Expr {
                 Expr::Const(a) if a > 0.0 => Expr::Const(a.ln()),
                 Expr::Const(1.0) => Expr::Const(0.0),
                 Expr::Exp(inner) => *inner,
-                // ln(x^a) = a * ln(x)
-                Expr::Pow(base, exp) => Expr::Mul(exp, Box::new(Expr::Ln(base))),
+                // ln(x^a) = a * ln(x), for positive x
+                Expr::Pow(base, exp) if base.is_positive() => Expr::Mul(exp, Box::new(Expr::Ln(base))),
                 expr => Expr::Ln(Box::new(expr)),
             },
             Expr::Exp(expr) => match expr.simplify() {
@@ -518,7 +536,7 @@ impl Expr {
                 Expr::Const(1.0) => Expr::Const(1.0),
                 // sqrt(x^2) = |x| (simplified to x for positive domains)
                 Expr::Pow(base, exp) => match exp.as_ref() {
-                    Expr::Const(2.0) => *base,
+                    Expr::Const(2.0) if base.is_positive() => *base,
                     _ => Expr::Sqrt(Box::new(Expr::Pow(base, exp))),
                 },
                 expr => Expr::Sqrt(Box::new(expr)),
-- 
2.43.0


From d20d00688f25ca02c37d6bdbaa2ef987d6c62ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 21/41] fix: symbolic caches distinguish expressions that print
 alike

---
 symbolic-math/src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 54d6d05..50dd59c 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -563,7 +563,7 @@ impl Expr {
     /// Simplify the expression using algebraic rules with caching
     #[must_use]
     pub fn simplify_cached(self) -> Self {
-        let expr_str = format!("{self}");
+        let expr_str = format!("{self:?}");
 
         // Check cache first
         if let Ok(cache) = SIMPLIFICATION_CACHE.lock()
@@ -592,7 +592,7 @@ impl Expr {
 
     /// Evaluate the expression with caching for repeated evaluations
     pub fn evaluate_cached(&self, vars: &HashMap<String, f64>) -> Result<f64, EvalError> {
-        let expr_str = format!("{self}");
+        let expr_str = format!("{self:?}");
         let vars_str = format!("{vars:?}");
         let cache_key = (expr_str.clone(), vars_str);
 
-- 
2.43.0


From 528440676874ee06bcec94fc29fcafbba19aa68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 22/41] fix: LaTeX output parenthesises operands where
 precedence requires it

---
 symbolic-math/src/expr.rs | 78 ++++++++++++++++++++++++++++-----------
 symbolic-math/src/lib.rs  |  2 +-
 2 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 50dd59c..d4c2586 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -750,35 +750,71 @@ impl Expr {
     /// Format as LaTeX for mathematical documents
     #[must_use]
     pub fn to_latex(&self) -> String {
+        self.latex_with_precedence().0
+    }
+
+    /// LaTeX source and how tightly its outermost operator binds:
+    /// 1 for sums and negations, 2 for products, 3 for fractions, powers and functions, 4 for atoms
+    fn latex_with_precedence(&self) -> (String, u8) {
         match self {
             Expr::Const(value) => {
-                if value.fract() == 0.0 && value.abs() < 1e10 {
+                let text = if value.fract() == 0.0 && value.abs() < 1e10 {
                     format!("{}", *value as i64)
                 } else {
                     format!("{value}")
-                }
+                };
+                let precedence = if text.starts_with('-') { 1 } else { 4 };
+                (text, precedence)
             }
-            Expr::Var(name) => name.clone(),
-            Expr::Add(left, right) => format!("{} + {}", left.to_latex(), right.to_latex()),
-            Expr::Sub(left, right) => format!("{} - {}", left.to_latex(), right.to_latex()),
+            Expr::Var(name) => (name.clone(), 4),
+            Expr::Add(left, right) => (
+                format!("{} + {}", left.latex_operand(1), right.latex_operand(2)),
+                1,
+            ),
+            Expr::Sub(left, right) => (
+                format!("{} - {}", left.latex_operand(1), right.latex_operand(2)),
+                1,
+            ),
             Expr::Mul(left, right) => match (left.as_ref(), right.as_ref()) {
-                (Expr::Const(c), _) if *c == 1.0 => right.to_latex(),
-                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.to_latex()),
-                (Expr::Const(_), Expr::Var(_)) => {
-                    format!("{}{}", left.to_latex(), right.to_latex())
-                }
-                _ => format!("{} \\cdot {}", left.to_latex(), right.to_latex()),
+                (Expr::Const(c), _) if *c == 1.0 => right.latex_with_precedence(),
+                (Expr::Const(c), _) if *c == -1.0 => (format!("-{}", right.latex_operand(2)), 1),
+                (Expr::Const(c), Expr::Var(_)) => (
+                    format!("{}{}", left.to_latex(), right.to_latex()),
+                    if *c < 0.0 { 1 } else { 2 },
+                ),
+                _ => (
+                    format!(
+                        "{} \\cdot {}",
+                        left.latex_operand(2),
+                        right.latex_operand(3)
+                    ),
+                    2,
+                ),
             },
-            Expr::Div(left, right) => {
-                format!("\\frac{{{}}}{{{}}}", left.to_latex(), right.to_latex())
-            }
-            Expr::Pow(base, exponent) => format!("{}^{{{}}}", base.to_latex(), exponent.to_latex()),
-            Expr::Ln(expr) => format!("\\ln({})", expr.to_latex()),
-            Expr::Exp(expr) => format!("e^{{{}}}", expr.to_latex()),
-            Expr::Sqrt(expr) => format!("\\sqrt{{{}}}", expr.to_latex()),
-            Expr::Sin(expr) => format!("\\sin({})", expr.to_latex()),
-            Expr::Cos(expr) => format!("\\cos({})", expr.to_latex()),
-            Expr::Neg(expr) => format!("-({})", expr.to_latex()),
+            Expr::Div(left, right) => (
+                format!("\\frac{{{}}}{{{}}}", left.to_latex(), right.to_latex()),
+                3,
+            ),
+            Expr::Pow(base, exponent) => (
+                format!("{}^{{{}}}", base.latex_operand(4), exponent.to_latex()),
+                3,
+            ),
+            Expr::Ln(expr) => (format!("\\ln({})", expr.to_latex()), 3),
+            Expr::Exp(expr) => (format!("e^{{{}}}", expr.to_latex()), 3),
+            Expr::Sqrt(expr) => (format!("\\sqrt{{{}}}", expr.to_latex()), 3),
+            Expr::Sin(expr) => (format!("\\sin({})", expr.to_latex()), 3),
+            Expr::Cos(expr) => (format!("\\cos({})", expr.to_latex()), 3),
+            Expr::Neg(expr) => (format!("-({})", expr.to_latex()), 1),
+        }
+    }
+
+    /// LaTeX source of an operand, parenthesised if it binds less tightly than required
+    fn latex_operand(&self, required: u8) -> String {
+        let (text, precedence) = self.latex_with_precedence();
+        if precedence < required {
+            format!("({text})")
+        } else {
+            text
         }
     }
 
diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index 9688c90..f48ae82 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -299,7 +299,7 @@ pub mod display {
     /// Generate LaTeX representation of an expression
     #[must_use]
     pub fn latex(expr: &Expr) -> String {
-        format!("${expr}$")
+        format!("${}$", expr.to_latex())
     }
 
     /// Generate Python code representation of an expression
-- 
2.43.0


From 18a82b880954b0a945a2779ead952916a30b8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 23/41] fix: Python output is valid Python and binds negations
 before powers

---
 symbolic-math/src/expr.rs | 39 ++++++++++++++++++++++++---------------
 symbolic-math/src/lib.rs  |  5 +++--
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index d4c2586..131fec2 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -822,22 +822,31 @@ impl Expr {
     /// TODO: `to_julia`
     #[must_use]
     pub fn to_python(&self) -> String {
+        self.python_with_variables(&|name| name.to_string())
+    }
+
+    /// Python code in which each variable is written as the given function says
+    pub(crate) fn python_with_variables(&self, variable: &dyn Fn(&str) -> String) -> String {
+        let python = |expr: &Expr| expr.python_with_variables(variable);
         match self {
-            Expr::Const(value) => format!("{value}"),
-            Expr::Var(name) => name.clone(),
-            Expr::Add(left, right) => format!("({} + {})", left.to_python(), right.to_python()),
-            Expr::Sub(left, right) => format!("({} - {})", left.to_python(), right.to_python()),
-            Expr::Mul(left, right) => format!("({} * {})", left.to_python(), right.to_python()),
-            Expr::Div(left, right) => format!("({} / {})", left.to_python(), right.to_python()),
-            Expr::Pow(base, exponent) => {
-                format!("({} ** {})", base.to_python(), exponent.to_python())
-            }
-            Expr::Ln(expr) => format!("math.log({})", expr.to_python()),
-            Expr::Exp(expr) => format!("math.exp({})", expr.to_python()),
-            Expr::Sqrt(expr) => format!("math.sqrt({})", expr.to_python()),
-            Expr::Sin(expr) => format!("math.sin({})", expr.to_python()),
-            Expr::Cos(expr) => format!("math.cos({})", expr.to_python()),
-            Expr::Neg(expr) => format!("-({})", expr.to_python()),
+            // Always a Python float: integer arithmetic would not round
+            Expr::Const(value) if value.is_nan() => "math.nan".to_string(),
+            Expr::Const(value) if value.is_infinite() && *value > 0.0 => "math.inf".to_string(),
+            Expr::Const(value) if value.is_infinite() => "(-math.inf)".to_string(),
+            Expr::Const(value) if value.is_sign_negative() => format!("({value:?})"),
+            Expr::Const(value) => format!("{value:?}"),
+            Expr::Var(name) => variable(name),
+            Expr::Add(left, right) => format!("({} + {})", python(left), python(right)),
+            Expr::Sub(left, right) => format!("({} - {})", python(left), python(right)),
+            Expr::Mul(left, right) => format!("({} * {})", python(left), python(right)),
+            Expr::Div(left, right) => format!("({} / {})", python(left), python(right)),
+            Expr::Pow(base, exponent) => format!("({} ** {})", python(base), python(exponent)),
+            Expr::Ln(expr) => format!("math.log({})", python(expr)),
+            Expr::Exp(expr) => format!("math.exp({})", python(expr)),
+            Expr::Sqrt(expr) => format!("math.sqrt({})", python(expr)),
+            Expr::Sin(expr) => format!("math.sin({})", python(expr)),
+            Expr::Cos(expr) => format!("math.cos({})", python(expr)),
+            Expr::Neg(expr) => format!("(-{})", python(expr)),
         }
     }
 }
diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index f48ae82..728b298 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -302,10 +302,11 @@ pub mod display {
         format!("${}$", expr.to_latex())
     }
 
-    /// Generate Python code representation of an expression
+    /// Generate Python code representation of an expression, as a function of a dictionary
     #[must_use]
     pub fn python(expr: &Expr) -> String {
-        format!("lambda vars: {expr}")
+        let body = expr.python_with_variables(&|name| format!("vars[{name:?}]"));
+        format!("lambda vars: {body}")
     }
 
     /// Generate a mathematical equation string
-- 
2.43.0


From 179008f46392b6a251e9d8ed26f2120fab277514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 24/41] fix: printed expressions parenthesise a negative
 constant raised to a power

---
 symbolic-math/src/expr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 131fec2..0735210 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -735,7 +735,13 @@ impl fmt::Display for Expr {
             Expr::Sub(left, right) => write!(f, "({left} - {right})"),
             Expr::Mul(left, right) => write!(f, "({left} * {right})"),
             Expr::Div(left, right) => write!(f, "({left} / {right})"),
-            Expr::Pow(base, exponent) => write!(f, "({base}^{exponent})"),
+            // A negative base needs parentheses: -2^2 reads as -(2^2)
+            Expr::Pow(base, exponent) => match base.as_ref() {
+                Expr::Const(value) if value.is_sign_negative() => {
+                    write!(f, "(({base})^{exponent})")
+                }
+                _ => write!(f, "({base}^{exponent})"),
+            },
             Expr::Ln(expr) => write!(f, "ln({expr})"),
             Expr::Exp(expr) => write!(f, "exp({expr})"),
             Expr::Sqrt(expr) => write!(f, "sqrt({expr})"),
-- 
2.43.0


From c9a126b64e8ae9b4e8594edafeff36af9f8fb2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 25/41] fix: the egglog optimiser keeps constants exactly

---
 symbolic-math/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 575e95b..c8a012f 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -193,7 +193,7 @@ impl EgglogOptimizer {
     /// Convert our Expr to egglog string representation
     fn expr_to_egglog(expr: &Expr) -> Result<String, egglog::Error> {
         match expr {
-            Expr::Const(c) => Ok(format!("(Const {c:.1})")),
+            Expr::Const(c) => Ok(format!("(Const {c:?})")),
             Expr::Var(name) => Ok(format!("(Var \"{name}\")")),
             Expr::Add(left, right) => {
                 let left_str = Self::expr_to_egglog(left)?;
-- 
2.43.0


From cede9de0bf3173b9753147b651656888a19753b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 26/41] fix: the egglog optimiser applies power laws only to
 bases known to be positive

---
 symbolic-math/src/optimization.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index c8a012f..f83531a 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -38,6 +38,17 @@ impl EgglogOptimizer {
                 (Cos Math)
                 (Neg Math))
             
+            ; Expressions known to be positive when all variables are
+            (relation positive (Math))
+            (rule ((= ?e (Const ?c)) (> ?c 0.0)) ((positive ?e)))
+            (rule ((= ?e (Var ?v))) ((positive ?e)))
+            (rule ((= ?e (Exp ?x))) ((positive ?e)))
+            (rule ((= ?e (Add ?x ?y)) (positive ?x) (positive ?y)) ((positive ?e)))
+            (rule ((= ?e (Mul ?x ?y)) (positive ?x) (positive ?y)) ((positive ?e)))
+            (rule ((= ?e (Div ?x ?y)) (positive ?x) (positive ?y)) ((positive ?e)))
+            (rule ((= ?e (Pow ?x ?y)) (positive ?x)) ((positive ?e)))
+            (rule ((= ?e (Sqrt ?x)) (positive ?x)) ((positive ?e)))
+            
             ; CONSERVATIVE arithmetic identities - only simplifying rules
             (rewrite (Add ?x (Const 0.0)) ?x)
             (rewrite (Add (Const 0.0) ?x) ?x)
@@ -97,7 +108,7 @@ impl EgglogOptimizer {
             ; Power laws
             (rewrite (Mul (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Add ?a ?b)))
             (rewrite (Div (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Sub ?a ?b)))
-            (rewrite (Pow (Pow ?x ?a) ?b) (Pow ?x (Mul ?a ?b)))
+            (rewrite (Pow (Pow ?x ?a) ?b) (Pow ?x (Mul ?a ?b)) :when ((positive ?x)))
             
             ; ENHANCED constant folding for common values
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
@@ -130,7 +141,7 @@ impl EgglogOptimizer {
             
             ; LOGARITHMIC and EXPONENTIAL advanced rules (simplified)
             ; ln(x^n) -> n*ln(x)
-            (rewrite (Ln (Pow ?x ?n)) (Mul ?n (Ln ?x)))
+            (rewrite (Ln (Pow ?x ?n)) (Mul ?n (Ln ?x)) :when ((positive ?x)))
             ; exp(n*ln(x)) -> x^n
             (rewrite (Exp (Mul ?n (Ln ?x))) (Pow ?x ?n))
             ; ln(sqrt(x)) -> 0.5*ln(x)
-- 
2.43.0


From 7021254c03842678b7266d9c3e31db5499f717c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 27/41] fix: optimising one expression cannot affect another

---
 symbolic-math/src/optimization.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index f83531a..3f6f7dc 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -169,23 +169,24 @@ impl EgglogOptimizer {
         // Convert our Expr to egglog format
         let egglog_expr = Self::expr_to_egglog(expr)?;
 
+        // Work on a copy of the rules: what an undefined expression (such as 0/0) makes equal
+        // must not leak into the optimization of other expressions
+        let mut egraph = self.egraph.clone();
+
         // Add the expression to the egraph
         let expr_id = format!("expr_{}", self.expr_counter);
         self.expr_counter += 1;
 
-        self.egraph
-            .parse_and_run_program(None, &format!("(let {expr_id} {egglog_expr})"))?;
+        egraph.parse_and_run_program(None, &format!("(let {expr_id} {egglog_expr})"))?;
 
         // Run equality saturation with LIMITED iterations to prevent explosion
-        self.egraph.parse_and_run_program(None, "(run 5)")?;
+        egraph.parse_and_run_program(None, "(run 5)")?;
 
         // Try to extract a simplified expression
         // For now, we'll use a simple approach: just extract the expression
         let extraction_program = format!("(extract {expr_id})");
 
-        let result = self
-            .egraph
-            .parse_and_run_program(None, &extraction_program)?;
+        let result = egraph.parse_and_run_program(None, &extraction_program)?;
 
         // Parse the extracted result back to our Expr type
         if let Some(extracted) = result.into_iter().next() {
-- 
2.43.0


From 36680b84ca392c76a6628a3db0b955695f7370ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 28/41] fix: the egglog optimiser no longer panics on a
 constant divided by zero

---
 symbolic-math/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 3f6f7dc..1fa2bfb 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -114,7 +114,7 @@ impl EgglogOptimizer {
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
             (rewrite (Mul (Const ?a) (Const ?b)) (Const (* ?a ?b)))
             (rewrite (Sub (Const ?a) (Const ?b)) (Const (- ?a ?b)))
-            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b)))
+            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b)) :when ((> (abs ?b) 0.0)))
             
             ; POLYNOMIAL simplification rules
             ; Collect like terms: x + x -> 2*x
-- 
2.43.0


From e7148c51a68874a8895b272a314c0dc7a0716a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 29/41] fix: compiled elementary functions are correct over
 their whole domain

---
 symbolic-math/src/jit.rs | 302 +++++++--------------------------------
 1 file changed, 48 insertions(+), 254 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 4653189..0721fac 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -17,7 +17,7 @@
 //! - Exponential family specific optimizations
 
 #[cfg(feature = "jit")]
-use cranelift_codegen::ir::{AbiParam, Function, InstBuilder, Value, types};
+use cranelift_codegen::ir::{AbiParam, Function, InstBuilder, Signature, Value, types};
 #[cfg(feature = "jit")]
 use cranelift_frontend::{FunctionBuilder, FunctionBuilderContext};
 #[cfg(feature = "jit")]
@@ -667,284 +667,78 @@ fn generate_clif_from_expr_with_vars(
     }
 }
 
-/// Generate a call to the pow function using basic math operations
+/// Generate a call to a function of the standard library
+#[cfg(feature = "jit")]
+fn generate_library_call(
+    builder: &mut FunctionBuilder,
+    function: *const u8,
+    arguments: &[Value],
+) -> Value {
+    let mut signature = Signature::new(builder.func.signature.call_conv);
+    for _ in arguments {
+        signature.params.push(AbiParam::new(types::F64));
+    }
+    signature.returns.push(AbiParam::new(types::F64));
+    let signature = builder.import_signature(signature);
+    let address = builder.ins().iconst(types::I64, function as i64);
+    let call = builder.ins().call_indirect(signature, address, arguments);
+    builder.inst_results(call)[0]
+}
+
+/// Generate a call to the pow function
 #[cfg(feature = "jit")]
 pub fn generate_pow_call(
     builder: &mut FunctionBuilder,
     base: Value,
     exponent: Value,
 ) -> Result<Value, JITError> {
-    // Use the standard approach: exp(exponent * ln(base))
-    let ln_base = generate_accurate_ln_call(builder, base)?;
-    let product = builder.ins().fmul(exponent, ln_base);
-    generate_exp_call(builder, product)
+    extern "C" fn pow(base: f64, exponent: f64) -> f64 {
+        base.powf(exponent)
+    }
+    Ok(generate_library_call(
+        builder,
+        pow as *const u8,
+        &[base, exponent],
+    ))
 }
 
-/// Generate CLIF IR for natural logarithm using range reduction and rational function approximation
-/// Uses coefficients from Julia's `ratfn_minimax` for ln on [1, 2] with ~3.7e-12 error (degree 7,2)
+/// Generate a call to the natural logarithm
 #[cfg(feature = "jit")]
 pub fn generate_accurate_ln_call(
     builder: &mut FunctionBuilder,
     val: Value,
 ) -> Result<Value, JITError> {
-    // Special case: ln(1) = 0 exactly
-    let one = builder.ins().f64const(1.0);
-    let zero = builder.ins().f64const(0.0);
-    let is_one = builder
-        .ins()
-        .fcmp(cranelift_codegen::ir::condcodes::FloatCC::Equal, val, one);
-
-    // Use range reduction: x = 2^k * m where 1.0 <= m < 2.0
-    // Then ln(x) = k*ln(2) + ln(m)
-    // This is the proper way to implement ln with good accuracy across all ranges
-
-    // Convert to integer bits for manipulation
-    let x_bits = builder
-        .ins()
-        .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), val);
-
-    // Extract exponent (IEEE 754 format)
-    let exponent_mask = builder.ins().iconst(types::I64, 0x7FF0000000000000);
-    let exponent_bits = builder.ins().band(x_bits, exponent_mask);
-    let exponent_shifted = builder.ins().ushr_imm(exponent_bits, 52);
-    let bias = builder.ins().iconst(types::I64, 1023);
-    let k_i64 = builder.ins().isub(exponent_shifted, bias);
-    let k = builder.ins().fcvt_from_sint(types::F64, k_i64);
-
-    // Extract mantissa and normalize to [1, 2)
-    let mantissa_mask = builder.ins().iconst(types::I64, 0x000FFFFFFFFFFFFF);
-    let mantissa_bits = builder.ins().band(x_bits, mantissa_mask);
-    let normalized_exp = builder.ins().iconst(types::I64, 0x3FF0000000000000); // Exponent for 1.0
-    let m_bits = builder.ins().bor(mantissa_bits, normalized_exp);
-    let m = builder
-        .ins()
-        .bitcast(types::F64, cranelift_codegen::ir::MemFlags::new(), m_bits);
-
-    // Rational function approximation for ln(m) on [1, 2] with ~3.7e-12 error
-    // Numerator coefficients (degree 7)
-    let n0 = builder.ins().f64const(-3.757_488_530_222_454);
-    let n1 = builder.ins().f64const(-11.054_916_701_724_03);
-    let n2 = builder.ins().f64const(11.288_438_153_376_154);
-    let n3 = builder.ins().f64const(4.139_561_514_484_466);
-    let n4 = builder.ins().f64const(-0.722_936_179_175_468);
-    let n5 = builder.ins().f64const(0.120_402_162_146_429_54);
-    let n6 = builder.ins().f64const(-0.013_833_868_987_268_428);
-    let n7 = builder.ins().f64const(0.000_773_450_181_076_160_1);
-
-    // Denominator coefficients (degree 2)
-    let d0 = builder.ins().f64const(1.0);
-    let d1 = builder.ins().f64const(9.977_721_025_877_55);
-    let d2 = builder.ins().f64const(10.595_600_174_718_957);
-
-    // Compute numerator: n0 + n1*m + n2*m² + n3*m³ + n4*m⁴ + n5*m⁵ + n6*m⁶ + n7*m⁷
-    let m2 = builder.ins().fmul(m, m);
-    let m3 = builder.ins().fmul(m2, m);
-    let m4 = builder.ins().fmul(m2, m2);
-    let m5 = builder.ins().fmul(m4, m);
-    let m6 = builder.ins().fmul(m4, m2);
-    let m7 = builder.ins().fmul(m4, m3);
-
-    let num_term1 = builder.ins().fmul(n1, m);
-    let num_term2 = builder.ins().fmul(n2, m2);
-    let num_term3 = builder.ins().fmul(n3, m3);
-    let num_term4 = builder.ins().fmul(n4, m4);
-    let num_term5 = builder.ins().fmul(n5, m5);
-    let num_term6 = builder.ins().fmul(n6, m6);
-    let num_term7 = builder.ins().fmul(n7, m7);
-
-    let num_partial1 = builder.ins().fadd(n0, num_term1);
-    let num_partial2 = builder.ins().fadd(num_partial1, num_term2);
-    let num_partial3 = builder.ins().fadd(num_partial2, num_term3);
-    let num_partial4 = builder.ins().fadd(num_partial3, num_term4);
-    let num_partial5 = builder.ins().fadd(num_partial4, num_term5);
-    let num_partial6 = builder.ins().fadd(num_partial5, num_term6);
-    let numerator = builder.ins().fadd(num_partial6, num_term7);
-
-    // Compute denominator: d0 + d1*m + d2*m²
-    let den_term1 = builder.ins().fmul(d1, m);
-    let den_term2 = builder.ins().fmul(d2, m2);
-    let den_partial1 = builder.ins().fadd(d0, den_term1);
-    let denominator = builder.ins().fadd(den_partial1, den_term2);
-
-    // Rational approximation: ln(m) ≈ numerator / denominator
-    let ln_m = builder.ins().fdiv(numerator, denominator);
-
-    // Final result: ln(x) = k*ln(2) + ln(m)
-    let ln_2 = builder.ins().f64const(std::f64::consts::LN_2);
-    let k_ln_2 = builder.ins().fmul(k, ln_2);
-    let ln_x = builder.ins().fadd(k_ln_2, ln_m);
-
-    // Return ln(1) = 0 exactly, otherwise return computed value
-    let result = builder.ins().select(is_one, zero, ln_x);
-    Ok(result)
+    extern "C" fn ln(x: f64) -> f64 {
+        x.ln()
+    }
+    Ok(generate_library_call(builder, ln as *const u8, &[val]))
 }
 
-/// Generate CLIF IR for exponential function using proven rational function approximation
-/// Uses coefficients from Julia's `ratfn_minimax` for exp on [0, ln(2)] with ~2.7e-12 error
+/// Generate a call to the exponential function
 #[cfg(feature = "jit")]
 pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // For range reduction: exp(x) = 2^k * exp(r) where r ∈ [0, ln(2)]
-    // Split x = k*ln(2) + r where k is integer and r ∈ [0, ln(2)]
-
-    let ln2 = builder.ins().f64const(std::f64::consts::LN_2);
-    let ln2_inv = builder.ins().f64const(1.0 / std::f64::consts::LN_2);
-
-    // Compute k = floor(x / ln(2))
-    let x_over_ln2 = builder.ins().fmul(val, ln2_inv);
-    let k_float = builder.ins().floor(x_over_ln2);
-
-    // Compute r = x - k*ln(2), so r ∈ [0, ln(2)]
-    let k_ln2 = builder.ins().fmul(k_float, ln2);
-    let r = builder.ins().fsub(val, k_ln2);
-
-    // Now use rational approximation for exp(r) where r ∈ [0, ln(2)]
-    // Rational function approximation: P(r) / Q(r)
-    // Numerator coefficients (degree 5)
-    let n0 = builder.ins().f64const(0.999_999_999_997_277_7);
-    let n1 = builder.ins().f64const(0.726_006_320_449_981);
-    let n2 = builder.ins().f64const(0.247_557_081_600_051_33);
-    let n3 = builder.ins().f64const(0.051_220_753_494_353_26);
-    let n4 = builder.ins().f64const(0.006_775_629_189_039_916);
-    let n5 = builder.ins().f64const(0.000_511_051_952_348_079_5);
-
-    // Denominator coefficients (degree 2)
-    let d0 = builder.ins().f64const(1.0);
-    let d1 = builder.ins().f64const(-0.273_993_680_027_297_7);
-    let d2 = builder.ins().f64const(0.021_550_775_407_834_573);
-
-    // Compute powers of r
-    let r2 = builder.ins().fmul(r, r);
-    let r3 = builder.ins().fmul(r2, r);
-    let r4 = builder.ins().fmul(r3, r);
-    let r5 = builder.ins().fmul(r4, r);
-
-    // Compute numerator: n0 + n1*r + n2*r² + n3*r³ + n4*r⁴ + n5*r⁵
-    let num_term1 = builder.ins().fmul(n1, r);
-    let num_term2 = builder.ins().fmul(n2, r2);
-    let num_term3 = builder.ins().fmul(n3, r3);
-    let num_term4 = builder.ins().fmul(n4, r4);
-    let num_term5 = builder.ins().fmul(n5, r5);
-
-    let numerator = builder.ins().fadd(n0, num_term1);
-    let numerator = builder.ins().fadd(numerator, num_term2);
-    let numerator = builder.ins().fadd(numerator, num_term3);
-    let numerator = builder.ins().fadd(numerator, num_term4);
-    let numerator = builder.ins().fadd(numerator, num_term5);
-
-    // Compute denominator: d0 + d1*r + d2*r²
-    let den_term1 = builder.ins().fmul(d1, r);
-    let den_term2 = builder.ins().fmul(d2, r2);
-
-    let denominator = builder.ins().fadd(d0, den_term1);
-    let denominator = builder.ins().fadd(denominator, den_term2);
-
-    // Rational function result: exp(r)
-    let exp_r = builder.ins().fdiv(numerator, denominator);
-
-    // Apply 2^k scaling - use a simpler conditional approach
-    let k_int = builder.ins().fcvt_to_sint(types::I32, k_float);
-
-    // For common small integer powers, use exact multiplication
-    // This avoids floating point precision issues
-    let zero = builder.ins().iconst(types::I32, 0);
-    let one_i32 = builder.ins().iconst(types::I32, 1);
-    let neg_one_i32 = builder.ins().iconst(types::I32, -1);
-
-    let two_f64 = builder.ins().f64const(2.0);
-    let half_f64 = builder.ins().f64const(0.5);
-
-    // Check for k = 0 (most common case)
-    let is_k_zero = builder
-        .ins()
-        .icmp(cranelift_codegen::ir::condcodes::IntCC::Equal, k_int, zero);
-    let result_k_zero = exp_r; // 2^0 = 1, so result = exp_r * 1 = exp_r
-
-    // Check for k = 1
-    let is_k_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        one_i32,
-    );
-    let result_k_one = builder.ins().fmul(exp_r, two_f64); // 2^1 = 2
-
-    // Check for k = -1
-    let is_k_neg_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        neg_one_i32,
-    );
-    let result_k_neg_one = builder.ins().fmul(exp_r, half_f64); // 2^(-1) = 0.5
-
-    // For other cases, use bit manipulation (ldexp-like operation)
-    let exp_r_bits =
-        builder
-            .ins()
-            .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), exp_r);
-    let k_64 = builder.ins().sextend(types::I64, k_int);
-    let exponent_shift = builder.ins().ishl_imm(k_64, 52); // Shift k to exponent position
-    let result_bits = builder.ins().iadd(exp_r_bits, exponent_shift);
-    let result_general = builder.ins().bitcast(
-        types::F64,
-        cranelift_codegen::ir::MemFlags::new(),
-        result_bits,
-    );
-
-    // Use select instructions to choose the right result
-    let temp_result = builder
-        .ins()
-        .select(is_k_zero, result_k_zero, result_general);
-    let temp_result2 = builder.ins().select(is_k_one, result_k_one, temp_result);
-    let result = builder
-        .ins()
-        .select(is_k_neg_one, result_k_neg_one, temp_result2);
-
-    Ok(result)
+    extern "C" fn exp(x: f64) -> f64 {
+        x.exp()
+    }
+    Ok(generate_library_call(builder, exp as *const u8, &[val]))
 }
 
-/// Generate CLIF IR for sine function using polynomial approximation
+/// Generate a call to the sine function
 #[cfg(feature = "jit")]
 pub fn generate_sin_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for sin(x)
-    // sin(x) ≈ x - x³/6 + x⁵/120
-
-    let x2 = builder.ins().fmul(val, val);
-    let x3 = builder.ins().fmul(x2, val);
-    let x5 = builder.ins().fmul(x3, x2);
-
-    let coeff2 = builder.ins().f64const(-0.16666666667);
-    let coeff3 = builder.ins().f64const(0.00833333333);
-
-    let term1 = val;
-    let term2 = builder.ins().fmul(x3, coeff2);
-    let term3 = builder.ins().fmul(x5, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
-
-    Ok(result)
+    extern "C" fn sin(x: f64) -> f64 {
+        x.sin()
+    }
+    Ok(generate_library_call(builder, sin as *const u8, &[val]))
 }
 
-/// Generate CLIF IR for cosine function using polynomial approximation
+/// Generate a call to the cosine function
 #[cfg(feature = "jit")]
 pub fn generate_cos_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for cos(x)
-    // cos(x) ≈ 1 - x²/2 + x⁴/24
-
-    let one = builder.ins().f64const(1.0);
-    let x2 = builder.ins().fmul(val, val);
-    let x4 = builder.ins().fmul(x2, x2);
-
-    let coeff2 = builder.ins().f64const(-0.5);
-    let coeff3 = builder.ins().f64const(0.04166666667);
-
-    let term1 = one;
-    let term2 = builder.ins().fmul(x2, coeff2);
-    let term3 = builder.ins().fmul(x4, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
-
-    Ok(result)
+    extern "C" fn cos(x: f64) -> f64 {
+        x.cos()
+    }
+    Ok(generate_library_call(builder, cos as *const u8, &[val]))
 }
 
 /// Generate CLIF IR for square root using Cranelift's built-in instruction
-- 
2.43.0


From e46935c29fb97d7a2247435e463561bc37cc40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 30/41] fix: compiled functions of several data points or many
 parameters read their arguments

---
 symbolic-math/src/jit.rs | 176 +++++++++++++++++++++------------------
 1 file changed, 95 insertions(+), 81 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 0721fac..2f1ce06 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -17,7 +17,9 @@
 //! - Exponential family specific optimizations
 
 #[cfg(feature = "jit")]
-use cranelift_codegen::ir::{AbiParam, Function, InstBuilder, Signature, Value, types};
+use cranelift_codegen::ir::{
+    AbiParam, Block, Function, InstBuilder, MemFlags, Signature, Type, Value, types,
+};
 #[cfg(feature = "jit")]
 use cranelift_frontend::{FunctionBuilder, FunctionBuilderContext};
 #[cfg(feature = "jit")]
@@ -158,8 +160,6 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *n, "Parameter count mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // This would need dynamic dispatch based on parameter count
-                    // For now, support common cases
                     match n {
                         2 => {
                             let func: fn(f64, f64, f64) -> f64 =
@@ -171,7 +171,7 @@ impl GeneralJITFunction {
                                 unsafe { std::mem::transmute(self.function_ptr) };
                             func(x, params[0], params[1], params[2])
                         }
-                        _ => panic!("Unsupported parameter count: {n}"),
+                        _ => self.call_with_arrays(&[x], params),
                     }
                 }
                 #[cfg(not(feature = "jit"))]
@@ -195,11 +195,7 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *param_dims, "Parameter dimension mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // For batch processing, we'd typically pass pointers to arrays
-                    // This is a simplified version - real implementation would be more complex
-                    let func: fn(*const f64, usize, *const f64, usize) -> f64 =
-                        unsafe { std::mem::transmute(self.function_ptr) };
-                    func(data.as_ptr(), data.len(), params.as_ptr(), params.len())
+                    self.call_with_arrays(data, params)
                 }
                 #[cfg(not(feature = "jit"))]
                 {
@@ -210,6 +206,85 @@ impl GeneralJITFunction {
             _ => panic!("Function signature mismatch: expected batch data and parameters"),
         }
     }
+
+    /// Call a function whose signature takes its arguments in arrays
+    #[cfg(feature = "jit")]
+    fn call_with_arrays(&self, data: &[f64], params: &[f64]) -> f64 {
+        let func: extern "C" fn(*const f64, *const f64) -> f64 =
+            unsafe { std::mem::transmute(self.function_ptr) };
+        func(data.as_ptr(), params.as_ptr())
+    }
+}
+
+#[cfg(feature = "jit")]
+impl JITSignature {
+    /// The signature for the given numbers of data and parameter variables
+    fn for_dimensions(data_dims: usize, param_dims: usize) -> Self {
+        match (data_dims, param_dims) {
+            (1, 0) => JITSignature::SingleInput,
+            (1, 1) => JITSignature::DataAndParameter,
+            (1, _) => JITSignature::DataAndParameters(param_dims),
+            _ => JITSignature::MultipleDataAndParameters {
+                data_dims,
+                param_dims,
+            },
+        }
+    }
+
+    /// Whether the native function takes pointers to its data and parameters, not the values
+    fn takes_arrays(&self) -> bool {
+        match self {
+            JITSignature::DataAndParameters(n) => *n > 3,
+            JITSignature::MultipleDataAndParameters { .. } => true,
+            _ => false,
+        }
+    }
+
+    /// Add the parameters of the native function
+    fn add_parameters(&self, sig: &mut Signature, pointer_type: Type) {
+        if self.takes_arrays() {
+            sig.params.push(AbiParam::new(pointer_type));
+            sig.params.push(AbiParam::new(pointer_type));
+        } else {
+            let count = match self {
+                JITSignature::SingleInput => 1,
+                JITSignature::DataAndParameter => 2,
+                JITSignature::DataAndParameters(n) => 1 + n,
+                _ => 0,
+            };
+            for _ in 0..count {
+                sig.params.push(AbiParam::new(types::F64));
+            }
+        }
+    }
+
+    /// Generate the value of each variable
+    fn bind_variables(
+        &self,
+        builder: &mut FunctionBuilder,
+        entry_block: Block,
+        data_vars: &[String],
+        param_vars: &[String],
+    ) -> std::collections::HashMap<String, Value> {
+        let arguments = builder.block_params(entry_block).to_vec();
+        let mut var_map = std::collections::HashMap::new();
+        if self.takes_arrays() {
+            for (array, names) in [(arguments[0], data_vars), (arguments[1], param_vars)] {
+                for (i, name) in names.iter().enumerate() {
+                    let offset = (i * std::mem::size_of::<f64>()) as i32;
+                    let value = builder
+                        .ins()
+                        .load(types::F64, MemFlags::trusted(), array, offset);
+                    var_map.insert(name.clone(), value);
+                }
+            }
+        } else {
+            for (name, value) in data_vars.iter().chain(param_vars).zip(arguments) {
+                var_map.insert(name.clone(), value);
+            }
+        }
+        var_map
+    }
 }
 
 /// Statistics about the JIT compilation process
@@ -264,15 +339,9 @@ impl GeneralJITCompiler {
         // Create function signature based on inputs
         let mut sig = self.module.make_signature();
 
-        // Add data parameters
-        for _ in data_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
-        // Add parameter parameters
-        for _ in param_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
+        let signature = JITSignature::for_dimensions(data_vars.len(), param_vars.len());
+        let pointer_type = self.module.target_config().pointer_type();
+        signature.add_parameters(&mut sig, pointer_type);
 
         sig.returns.push(AbiParam::new(types::F64));
 
@@ -292,19 +361,8 @@ impl GeneralJITCompiler {
         builder.switch_to_block(entry_block);
         builder.append_block_params_for_function_params(entry_block);
 
-        // Get input parameters
-        let block_params = builder.block_params(entry_block);
-        let mut var_map = std::collections::HashMap::new();
-
-        // Map data variables to their values
-        for (i, var_name) in data_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[i]);
-        }
-
-        // Map parameter variables to their values
-        for (i, var_name) in param_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[data_vars.len() + i]);
-        }
+        // Map the variables to their values
+        let var_map = signature.bind_variables(&mut builder, entry_block, data_vars, param_vars);
 
         // Generate CLIF IR for the expression
         let result = generate_clif_from_expr_with_vars(&mut builder, expr, &var_map, constants)?;
@@ -332,20 +390,6 @@ impl GeneralJITCompiler {
 
         let compilation_time = start_time.elapsed();
 
-        // Determine signature type
-        let signature = if data_vars.len() == 1 && param_vars.is_empty() {
-            JITSignature::SingleInput
-        } else if data_vars.len() == 1 && param_vars.len() == 1 {
-            JITSignature::DataAndParameter
-        } else if data_vars.len() == 1 && param_vars.len() > 1 {
-            JITSignature::DataAndParameters(param_vars.len())
-        } else {
-            JITSignature::MultipleDataAndParameters {
-                data_dims: data_vars.len(),
-                param_dims: param_vars.len(),
-            }
-        };
-
         // Create compilation statistics
         let stats = CompilationStats {
             code_size_bytes: 128, // Estimate - in practice we'd get this from Cranelift
@@ -453,15 +497,9 @@ impl GeneralJITCompiler {
         // Create function signature based on inputs
         let mut sig = self.module.make_signature();
 
-        // Add data parameters
-        for _ in data_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
-        // Add parameter parameters
-        for _ in param_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
+        let signature = JITSignature::for_dimensions(data_vars.len(), param_vars.len());
+        let pointer_type = self.module.target_config().pointer_type();
+        signature.add_parameters(&mut sig, pointer_type);
 
         sig.returns.push(AbiParam::new(types::F64));
 
@@ -481,19 +519,9 @@ impl GeneralJITCompiler {
         builder.switch_to_block(entry_block);
         builder.append_block_params_for_function_params(entry_block);
 
-        // Get input parameters
-        let block_params = builder.block_params(entry_block);
-        let mut var_map = std::collections::HashMap::new();
-
-        // Map data variables to their values
-        for (i, var_name) in data_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[i]);
-        }
-
-        // Map parameter variables to their values
-        for (i, var_name) in param_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[data_vars.len() + i]);
-        }
+        // Map the variables to their values
+        let mut var_map =
+            signature.bind_variables(&mut builder, entry_block, data_vars, param_vars);
 
         // Add constants to the variable map as constant values
         for (name, &value) in constants {
@@ -527,20 +555,6 @@ impl GeneralJITCompiler {
 
         let compilation_time = start_time.elapsed();
 
-        // Determine signature type
-        let signature = if data_vars.len() == 1 && param_vars.is_empty() {
-            JITSignature::SingleInput
-        } else if data_vars.len() == 1 && param_vars.len() == 1 {
-            JITSignature::DataAndParameter
-        } else if data_vars.len() == 1 && param_vars.len() > 1 {
-            JITSignature::DataAndParameters(param_vars.len())
-        } else {
-            JITSignature::MultipleDataAndParameters {
-                data_dims: data_vars.len(),
-                param_dims: param_vars.len(),
-            }
-        };
-
         // Create compilation statistics
         let stats = CompilationStats {
             code_size_bytes: 128, // Estimate - in practice we'd get this from Cranelift
-- 
2.43.0


From e3d0f6b927b2e1a4136b99053224afb2fbc99c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 31/41] fix: compiling a density with parameters never takes a
 parameter for the input variable

---
 symbolic-math/src/jit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 2f1ce06..4339951 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -826,8 +826,12 @@ fn generate_custom_log_density(
     // Create a variable mapping with the input value
     let mut var_map = std::collections::HashMap::new();
 
-    // Assume the first variable in the expression is the input variable
-    if let Some(var_name) = symbolic.variables.first() {
+    // The first variable that is not a parameter is the input variable
+    let input = symbolic
+        .variables
+        .iter()
+        .find(|name| !symbolic.parameters.contains_key(*name));
+    if let Some(var_name) = input {
         var_map.insert(var_name.clone(), x_val);
     }
 
-- 
2.43.0


From eb0da2fd60867cdcfba53a947c145750ce1d9e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 32/41] fix: a constant does not replace a declared variable of
 a compiled tagless expression

---
 symbolic-math/src/jit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 4339951..4e4de3b 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -526,7 +526,7 @@ impl GeneralJITCompiler {
         // Add constants to the variable map as constant values
         for (name, &value) in constants {
             let const_val = builder.ins().f64const(value);
-            var_map.insert(name.clone(), const_val);
+            var_map.entry(name.clone()).or_insert(const_val);
         }
 
         // Generate CLIF IR for the final tagless expression
-- 
2.43.0


From c34dbdd73a11f29b5fa075a89535d9b5cfb95537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 33/41] fix: automatically detected variables of a compiled
 expression have a defined order

---
 symbolic-math/src/final_tagless.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index a7b217d..82add97 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -992,9 +992,13 @@ impl MathExpr for JITEval {
 #[cfg(feature = "jit")]
 impl JITEval {
     /// Compile expression with automatic signature detection
+    ///
+    /// All variables are data inputs, in alphabetical order.
     pub fn compile(expr: JITRepr) -> Result<GeneralJITFunction, JITError> {
         let variables = expr.collect_variables();
-        let var_list: Vec<String> = variables.into_iter().collect();
+        // The arguments are taken in alphabetical order of the variables
+        let mut var_list: Vec<String> = variables.into_iter().collect();
+        var_list.sort();
 
         let compiler = GeneralJITCompiler::new()?;
         compiler.compile_final_tagless(&expr, &var_list, &[], &HashMap::new())
-- 
2.43.0


From 5aa50534dc06791659f1d9204c9b155323900034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 34/41] fix: tagless Poisson log-density contains the
 log-factorial

---
 .../src/exponential_family/final_tagless.rs   | 39 +++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/final_tagless.rs b/measures-exponential-family/src/exponential_family/final_tagless.rs
index 7c0b0f7..ca6d722 100644
--- a/measures-exponential-family/src/exponential_family/final_tagless.rs
+++ b/measures-exponential-family/src/exponential_family/final_tagless.rs
@@ -382,14 +382,47 @@ pub mod patterns {
     where
         E::Repr<f64>: Clone,
     {
-        // Note: log(x!) would need special handling for integer x
-        // This is a simplified version for demonstration
         E::sub(
             E::sub(E::mul(x.clone(), E::ln(lambda.clone())), lambda),
-            E::ln(x), // Simplified - should be log factorial
+            log_factorial::<E>(x),
         )
     }
 
+    /// Log-factorial log(x!) for x ≥ 0 in final tagless style
+    ///
+    /// Stirling's series at z = x + 10, brought back with
+    /// x! = (x + 9)! / ((x + 1)(x + 2)⋯(x + 9))
+    fn log_factorial<E: ExponentialFamilyExpr>(x: E::Repr<f64>) -> E::Repr<f64>
+    where
+        E::Repr<f64>: Clone,
+    {
+        let z: E::Repr<f64> = E::add(x.clone(), E::constant(10.0));
+        let mut rising: E::Repr<f64> = E::add(x.clone(), E::constant(1.0));
+        for i in 2..10 {
+            rising = E::mul(rising, E::add(x.clone(), E::constant(f64::from(i))));
+        }
+
+        // (z - 1/2) log(z) - z + log(2π) / 2
+        let main = E::add(
+            E::sub(
+                E::mul(E::sub(z.clone(), E::constant(0.5)), E::ln(z.clone())),
+                z.clone(),
+            ),
+            E::constant(0.5 * (2.0 * std::f64::consts::PI).ln()),
+        );
+
+        // 1/(12z) - 1/(360z³) + 1/(1260z⁵) - 1/(1680z⁷)
+        let inverse: E::Repr<f64> = E::div(E::constant(1.0), z);
+        let square: E::Repr<f64> = E::mul(inverse.clone(), inverse.clone());
+        let mut series: E::Repr<f64> = E::constant(-1.0 / 1680.0);
+        for coefficient in [1.0 / 1260.0, -1.0 / 360.0, 1.0 / 12.0] {
+            series = E::add(E::mul(series, square.clone()), E::constant(coefficient));
+        }
+        let correction: E::Repr<f64> = E::mul(series, inverse);
+
+        E::sub(E::add(main, correction), E::ln(rising))
+    }
+
     /// Exponential distribution log-density in final tagless style
     ///
     /// Computes: log(λ) - λ*x
-- 
2.43.0


From 01c73065c81dc0a07f87ec1ef67a52d7b8d075c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 35/41] fix: pretty-printed tagless programs parenthesise a
 negative constant raised to a power

---
 mathjit/src/final_tagless.rs       | 7 ++++++-
 symbolic-math/src/final_tagless.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mathjit/src/final_tagless.rs b/mathjit/src/final_tagless.rs
index 1dc4c6d..0685c21 100644
--- a/mathjit/src/final_tagless.rs
+++ b/mathjit/src/final_tagless.rs
@@ -695,7 +695,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        if base.starts_with('-') {
+            // A negative constant: -2 ^ 2 would read as -(2 ^ 2)
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 82add97..aedff02 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -544,7 +544,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        if base.starts_with('-') {
+            // A negative constant: -2 ^ 2 would read as -(2 ^ 2)
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
-- 
2.43.0


From 752edee697576af4773d0ee2a81e06e1a592b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 36/41] fix: BayesianJITOptimizer evaluates functions of a
 single data point

---
 measures-bayesian/src/bayesian/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/measures-bayesian/src/bayesian/mod.rs b/measures-bayesian/src/bayesian/mod.rs
index 1d003fc..95ae157 100644
--- a/measures-bayesian/src/bayesian/mod.rs
+++ b/measures-bayesian/src/bayesian/mod.rs
@@ -202,19 +202,31 @@ impl BayesianJITOptimizer {
     pub fn evaluate_posterior(&self, data: &[f64], params: &[f64]) -> Option<f64> {
         self.posterior_fn
             .as_ref()
-            .map(|f| f.call_batch(data, params))
+            .map(|f| Self::call(f, data, params))
     }
 
     /// Evaluate the compiled likelihood function
     pub fn evaluate_likelihood(&self, data: &[f64], params: &[f64]) -> Option<f64> {
         self.likelihood_fn
             .as_ref()
-            .map(|f| f.call_batch(data, params))
+            .map(|f| Self::call(f, data, params))
     }
 
     /// Evaluate the compiled prior function
     pub fn evaluate_prior(&self, params: &[f64]) -> Option<f64> {
-        self.prior_fn.as_ref().map(|f| f.call_batch(&[], params))
+        self.prior_fn.as_ref().map(|f| Self::call(f, &[], params))
+    }
+
+    /// Call a compiled function through the entry point its signature asks for
+    fn call(f: &symbolic_math::GeneralJITFunction, data: &[f64], params: &[f64]) -> f64 {
+        use symbolic_math::jit::JITSignature;
+
+        match (&f.signature, data, params) {
+            (JITSignature::SingleInput, [x], []) => f.call_single(*x),
+            (JITSignature::DataAndParameter, [x], [theta]) => f.call_data_param(*x, *theta),
+            (JITSignature::DataAndParameters(_), [x], params) => f.call_data_params(*x, params),
+            _ => f.call_batch(data, params),
+        }
     }
 }
 
-- 
2.43.0


From 71d4366d041e7f9e4365b46bda4780205f88a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 37/41] fix: MixtureMeasure::new rejects negative weights

---
 .../src/measures/combinators/superposition.rs              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 4ffd543..b0cab54 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -34,7 +34,8 @@ impl<M, F: Float> MixtureMeasure<M, F> {
     /// * `weights` - Vector of mixture weights (should sum to 1)
     ///
     /// # Panics
-    /// Panics if components and weights have different lengths or if weights don't sum to 1.
+    /// Panics if components and weights have different lengths, or if weights are negative or
+    /// don't sum to 1.
     #[must_use]
     pub fn new(components: Vec<M>, weights: Vec<F>) -> Self {
         assert_eq!(
@@ -42,6 +43,10 @@ impl<M, F: Float> MixtureMeasure<M, F> {
             weights.len(),
             "Components and weights must have same length"
         );
+        assert!(
+            weights.iter().all(|&w| w >= F::zero()),
+            "Weights must be non-negative"
+        );
 
         let weight_sum: F = weights.iter().copied().fold(F::zero(), |acc, w| acc + w);
         // Allow for the rounding of one addition per component in F
-- 
2.43.0


From f53825da7ace7269e9138dcbc54efd30ed104623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 38/41] fix: keep variable names intact through the egglog text

---
 symbolic-math/src/optimization.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 1fa2bfb..72d5581 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -206,7 +206,7 @@ impl EgglogOptimizer {
     fn expr_to_egglog(expr: &Expr) -> Result<String, egglog::Error> {
         match expr {
             Expr::Const(c) => Ok(format!("(Const {c:?})")),
-            Expr::Var(name) => Ok(format!("(Var \"{name}\")")),
+            Expr::Var(name) => Ok(format!("(Var \"{}\")", Self::escape_name(name))),
             Expr::Add(left, right) => {
                 let left_str = Self::expr_to_egglog(left)?;
                 let right_str = Self::expr_to_egglog(right)?;
@@ -259,6 +259,32 @@ impl EgglogOptimizer {
         }
     }
 
+    /// Write the characters of a variable name that have a meaning in egglog
+    /// text (quotes, backslashes, parentheses, spaces, ...) as `%<hex>;`
+    fn escape_name(name: &str) -> String {
+        let mut escaped = String::with_capacity(name.len());
+        for ch in name.chars() {
+            if ch.is_alphanumeric() || ch == '_' {
+                escaped.push(ch);
+            } else {
+                escaped.push_str(&format!("%{:x};", ch as u32));
+            }
+        }
+        escaped
+    }
+
+    /// Inverse of `escape_name`
+    fn unescape_name(escaped: &str) -> Option<String> {
+        let mut parts = escaped.split('%');
+        let mut name = parts.next()?.to_string();
+        for part in parts {
+            let (code, rest) = part.split_once(';')?;
+            name.push(char::from_u32(u32::from_str_radix(code, 16).ok()?)?);
+            name.push_str(rest);
+        }
+        Some(name)
+    }
+
     /// Convert egglog string representation back to our Expr type
     /// Returns None if parsing fails (we'll fallback to original expression)
     fn egglog_to_expr(egglog_str: &str) -> Option<Expr> {
@@ -275,7 +301,7 @@ impl EgglogOptimizer {
 
         if trimmed.starts_with("(Var \"") && trimmed.ends_with("\")") {
             let var_name = &trimmed[6..trimmed.len() - 2];
-            return Some(Expr::Var(var_name.to_string()));
+            return Self::unescape_name(var_name).map(Expr::Var);
         }
 
         // Handle binary operations
-- 
2.43.0


From 9378808c2919e791040dc75815c4a4adb8818b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:51 +0000
Subject: [PATCH 39/41] fix: discrete log-densities for probabilities too small
 for 1 - p (Geometric, Binomial, NegativeBinomial)

---
 .../src/distributions/discrete/binomial.rs                 | 7 ++++---
 .../src/distributions/discrete/geometric.rs                | 3 ++-
 .../src/distributions/discrete/negative_binomial.rs        | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index e3a9a5d..20b16a4 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -158,11 +158,12 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let n = T::from(self.n).unwrap();
 
             // 0 * log(0) is 0 here: with p = 0 or p = 1 the impossible outcome never occurs
-            let x_ln_y = |x: T, y: T| if x.is_zero() { T::zero() } else { x * y.ln() };
+            let times_ln = |x: T, ln_y: T| if x.is_zero() { T::zero() } else { x * ln_y };
 
+            // (ln_1p: 1 - p would round to 1 for a small p)
             log_binomial_coefficient::<T>(self.n, *x)
-                + x_ln_y(k, self.prob)
-                + x_ln_y(n - k, T::one() - self.prob)
+                + times_ln(k, self.prob.ln())
+                + times_ln(n - k, (-self.prob).ln_1p())
         } else {
             T::neg_infinity() // Outside support
         }
diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index c182e8f..d825de0 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -163,7 +163,8 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Geometric<T> {
                 return self.prob.ln(); // avoids 0 * log(0) when p = 1
             }
             let k = T::from(*x).unwrap();
-            (k - T::one()) * (T::one() - self.prob).ln() + self.prob.ln()
+            // ln_1p: 1 - p would round to 1 for a small p
+            (k - T::one()) * (-self.prob).ln_1p() + self.prob.ln()
         } else {
             T::neg_infinity() // Outside support (k must be >= 1)
         }
diff --git a/measures-distributions/src/distributions/discrete/negative_binomial.rs b/measures-distributions/src/distributions/discrete/negative_binomial.rs
index ee5c3fb..092ab38 100644
--- a/measures-distributions/src/distributions/discrete/negative_binomial.rs
+++ b/measures-distributions/src/distributions/discrete/negative_binomial.rs
@@ -169,6 +169,6 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for NegativeBinomial<T> {
 
         log_negative_binomial_coefficient::<T>(self.r, *x)
             + k * self.prob.ln()
-            + r * (T::one() - self.prob).ln()
+            + r * (-self.prob).ln_1p() // (1 - p would round to 1 for a small p)
     }
 }
-- 
2.43.0


From 592a55d8c9430925225c3297958abc3e1cbce607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 40/41] fix: Geometric natural parameter loses small
 probabilities

---
 .../src/distributions/discrete/geometric.rs                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index d825de0..d2ce09d 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -101,8 +101,8 @@ where
     fn from_natural(param: <Self as ExponentialFamily<u64, T>>::NaturalParam) -> Self {
         let [eta] = param;
         // η = log(1-p) => 1-p = exp(η) => p = 1 - exp(η)
-        let failure_prob = eta.exp();
-        let prob = T::one() - failure_prob;
+        // (exp_m1 keeps a small p from being rounded away)
+        let prob = -eta.exp_m1();
         Self::new(prob)
     }
 
@@ -119,7 +119,7 @@ where
     }
 
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<u64, T>>::NaturalParam, T) {
-        let natural_param = [self.failure_prob().ln()];
+        let natural_param = [(-self.prob).ln_1p()];
 
         // (1-p)^(k-1) p = exp(kη - A(η)) with A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
         let log_partition = natural_param[0] - self.prob.ln();
-- 
2.43.0


From a89dbff3e54d40f0426fac6249d3b08677672d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 41/41] fix: log-partitions of Bernoulli, Binomial and
 NegativeBinomial vanish for small probabilities

---
 .../src/distributions/discrete/bernoulli.rs                  | 2 +-
 .../src/distributions/discrete/binomial.rs                   | 2 +-
 .../src/distributions/discrete/negative_binomial.rs          | 5 ++---
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/bernoulli.rs b/measures-distributions/src/distributions/discrete/bernoulli.rs
index 9c5920d..20de4a6 100644
--- a/measures-distributions/src/distributions/discrete/bernoulli.rs
+++ b/measures-distributions/src/distributions/discrete/bernoulli.rs
@@ -125,7 +125,7 @@ where
         let natural_param = [self.log_odds()];
 
         // Log partition: A(η) = log(1 + exp(η))
-        let log_partition = (T::one() + natural_param[0].exp()).ln();
+        let log_partition = natural_param[0].exp().ln_1p();
 
         (natural_param, log_partition)
     }
diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index 20b16a4..b24855b 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -117,7 +117,7 @@ where
 
         // Log partition: A(η) = n * log(1 + exp(η))
         let n_t = T::from(self.n).unwrap();
-        let log_partition = n_t * (T::one() + natural_param[0].exp()).ln();
+        let log_partition = n_t * natural_param[0].exp().ln_1p();
 
         (natural_param, log_partition)
     }
diff --git a/measures-distributions/src/distributions/discrete/negative_binomial.rs b/measures-distributions/src/distributions/discrete/negative_binomial.rs
index 092ab38..523986a 100644
--- a/measures-distributions/src/distributions/discrete/negative_binomial.rs
+++ b/measures-distributions/src/distributions/discrete/negative_binomial.rs
@@ -123,10 +123,9 @@ where
 
         // Log partition: A(η) = -r * log(1 - sigmoid(η))
         // where sigmoid(η) = exp(η)/(1 + exp(η))
-        let exp_eta = natural_param[0].exp();
-        let sigmoid_eta = exp_eta / (T::one() + exp_eta);
+        // and 1 - sigmoid(η) = 1 / (1 + exp(η))
         let r_t = T::from(self.r).unwrap();
-        let log_partition = -r_t * (T::one() - sigmoid_eta).ln();
+        let log_partition = r_t * natural_param[0].exp().ln_1p();
 
         (natural_param, log_partition)
     }
-- 
2.43.0

