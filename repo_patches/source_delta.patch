From 290086065a429c644bbd1c5398bfe2e02de5cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 01/72] fix: Empty is satisfied by arrays of length zero, not
 by all others

---
 src/params/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index faedb27..55ae57e 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -397,7 +397,7 @@ impl Display for Empty {
 }
 
 impl<const N: usize, T> Constraint<[T; N]> for Empty {
-    fn is_satisfied_by(&self, vec: &[T; N]) -> bool { N > 0 }
+    fn is_satisfied_by(&self, vec: &[T; N]) -> bool { N == 0 }
 }
 
 impl<T> Constraint<Vec<T>> for Empty {
-- 
2.43.0


From a3c75745d8dc2c89a245357da58159d9bb380a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 02/72] fix: And displays its own connective

---
 src/params/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index 55ae57e..725edd7 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -269,7 +269,7 @@ pub struct And<C1, C2>(pub (C1, C2));
 
 impl<C1: Display, C2: Display> Display for And<C1, C2> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "And({} || {})", (self.0).0, (self.0).1)
+        write!(f, "And({} && {})", (self.0).0, (self.0).1)
     }
 }
 
-- 
2.43.0


From 6e898b2bee1feeb0f9cdcb40fbb4fd7b70b077e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 03/72] fix: pass LAPACK and BLAS a leading dimension of at
 least one

---
 src/normal/linalg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/linalg.rs b/src/normal/linalg.rs
index c26f447..54ea627 100644
--- a/src/normal/linalg.rs
+++ b/src/normal/linalg.rs
@@ -6,7 +6,7 @@ pub(crate) unsafe fn cholesky<const N: usize>(mut mat: Matrix<N, N>) -> Matrix<N
     lapack::dpotrf(
         'U' as u8, N as i32,
         &mut *mat.as_mut().as_mut_ptr(),
-        N as i32, &mut info
+        1i32.max(N as i32), &mut info
     );
 
     for i in 0..N {
@@ -53,7 +53,7 @@ pub(crate) unsafe fn mv_mult<const N: usize>(mat: &Matrix<N, N>, mut vec: [f64;
         'U' as u8, 'T' as u8, 'N' as u8, N as i32,
         &*mat.as_ref().as_ptr(),
         // std::mem::transmute(mat),
-        N as i32,
+        1i32.max(N as i32),
         vec.as_mut(),
         1
     );
-- 
2.43.0


From 4ad60e2f9555a1b52817779cc16f1bd1766d7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 04/72] fix: restore parameters through their checked
 constructors

---
 src/params/mod.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/params/mod.rs b/src/params/mod.rs
index 336d417..cdb622e 100644
--- a/src/params/mod.rs
+++ b/src/params/mod.rs
@@ -60,12 +60,37 @@ macro_rules! impl_param {
     };
 }
 
+/// Restores a value through its checked constructor.
+macro_rules! deserialize_checked {
+    ($name:ident<$t:ident> s.t. $cst:ty) => {
+        #[cfg(feature = "serde")]
+        impl<'de, $t> serde_crate::Deserialize<'de> for $name<$t>
+        where
+            $t: serde_crate::Deserialize<'de> + std::fmt::Debug,
+            $cst: $crate::params::constraints::Constraint<$t>,
+        {
+            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            where
+                D: serde_crate::Deserializer<'de>,
+            {
+                #[derive(Deserialize)]
+                #[serde(crate = "serde_crate")]
+                struct $name<$t>($t);
+
+                let unchecked: $name<$t> = serde_crate::Deserialize::deserialize(deserializer)?;
+
+                Self::new(unchecked.0).map_err(serde_crate::de::Error::custom)
+            }
+        }
+    };
+}
+
 macro_rules! param {
-    (@struct $name:ident) => {
+    (@struct $name:ident $($derive:ident)?) => {
         #[derive(Debug, Clone, Copy)]
         #[cfg_attr(
             feature = "serde",
-            derive(Serialize, Deserialize),
+            derive(Serialize $(, $derive)?),
             serde(crate = "serde_crate")
         )]
         pub struct $name<T>(pub T);
@@ -83,7 +108,7 @@ macro_rules! param {
         }
     };
     ($name:ident) => {
-        param!(@struct $name);
+        param!(@struct $name Deserialize);
 
         impl<T: std::fmt::Debug> $name<T> {
             pub fn new(value: T) -> Result<
@@ -116,6 +141,8 @@ macro_rules! param {
         }
 
         impl_param!($name s.t. $cst { $cst_build });
+
+        deserialize_checked!($name<T> s.t. $cst);
     };
 }
 
-- 
2.43.0


From c8432f7a371ee3fdf6ba4142659e4a5ce10daac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 05/72] fix: restore correlations and concentrations through
 their checked constructors

---
 src/params/concentrations.rs | 20 ++++++++++++++++++--
 src/params/corr.rs           | 16 +++++++++++++++-
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/params/concentrations.rs b/src/params/concentrations.rs
index 4e7e0f2..a5f6383 100644
--- a/src/params/concentrations.rs
+++ b/src/params/concentrations.rs
@@ -6,17 +6,33 @@ use crate::params::{
 #[derive(Debug, Clone)]
 #[cfg_attr(
     feature = "serde",
-    derive(Serialize, Deserialize),
+    derive(Serialize),
     serde(crate = "serde_crate")
 )]
 pub struct Concentrations<const N: usize>(
     #[cfg_attr(
         feature = "serde",
-        serde(with = "crate::utils::serde_arrays")
+        serde(serialize_with = "crate::utils::serde_arrays::serialize")
     )]
     pub [f64; N]
 );
 
+#[cfg(feature = "serde")]
+impl<'de, const N: usize> serde_crate::Deserialize<'de> for Concentrations<N> {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: serde_crate::Deserializer<'de> {
+        #[derive(Deserialize)]
+        #[serde(crate = "serde_crate")]
+        struct Concentrations<const N: usize>(
+            #[serde(with = "crate::utils::serde_arrays")] [f64; N]
+        );
+
+        let unchecked: Concentrations<N> = serde_crate::Deserialize::deserialize(deserializer)?;
+
+        Self::new(unchecked.0).map_err(serde_crate::de::Error::custom)
+    }
+}
+
 impl<const N: usize> Concentrations<N> {
     pub fn new(
         value: [f64; N]
diff --git a/src/params/corr.rs b/src/params/corr.rs
index b1aa4c3..5caffff 100644
--- a/src/params/corr.rs
+++ b/src/params/corr.rs
@@ -6,11 +6,25 @@ use crate::params::{
 #[derive(Debug, Clone, Copy)]
 #[cfg_attr(
     feature = "serde",
-    derive(Serialize, Deserialize),
+    derive(Serialize),
     serde(crate = "serde_crate")
 )]
 pub struct Corr(pub f64);
 
+#[cfg(feature = "serde")]
+impl<'de> serde_crate::Deserialize<'de> for Corr {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: serde_crate::Deserializer<'de> {
+        #[derive(Deserialize)]
+        #[serde(crate = "serde_crate")]
+        struct Corr(f64);
+
+        let unchecked: Corr = serde_crate::Deserialize::deserialize(deserializer)?;
+
+        Self::new(unchecked.0).map_err(serde_crate::de::Error::custom)
+    }
+}
+
 impl Corr {
     pub fn new(value: f64) -> Result<Self, constraints::UnsatisfiedConstraintError<f64>> {
         Ok(Corr(All(Interval { lb: -1.0, ub: 1.0 }).check(value)?))
-- 
2.43.0


From 40df9448ae5c5774ea31c9bf22f2c89c0867956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 06/72] fix: Uniform parameters deserialise for the field types
 they are checked with

---
 src/univariate/uniform.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index dcdfac5..8fa270d 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -21,7 +21,11 @@ pub use crate::params::{Loc, Scale};
 #[cfg_attr(
     feature = "serde",
     derive(Serialize, Deserialize),
-    serde(crate = "serde_crate")
+    serde(
+        crate = "serde_crate",
+        bound(deserialize = "Loc<T>: serde_crate::Deserialize<'de>, \
+                             Scale<T>: serde_crate::Deserialize<'de>")
+    )
 )]
 pub struct Params<T> {
     pub lb: Loc<T>,
-- 
2.43.0


From 673a0fab3e0efd95c9636889f3d15848732250fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 07/72] fix: Bernoulli cdf, kurtosis, modes and score

---
 src/univariate/bernoulli.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index fffb0e8..c144598 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -65,7 +65,7 @@ impl Distribution for Bernoulli {
         if *k {
             Probability::one()
         } else {
-            Probability::zero()
+            self.q
         }
     }
 
@@ -92,9 +92,9 @@ impl UvMoments for Bernoulli {
 
     fn skewness(&self) -> f64 { (1.0 - 2.0 * self.params.p.unwrap()) / self.variance.sqrt() }
 
-    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
+    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 9.0 }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
 }
 
 impl Quantiles for Bernoulli {
@@ -116,7 +116,7 @@ impl Modes for Bernoulli {
         match self.params.p.partial_cmp(&self.q) {
             Some(Less) => vec![false],
             Some(Equal) => vec![false, true],
-            Some(Greater) => vec![false],
+            Some(Greater) => vec![true],
             None => unreachable!(),
         }
     }
@@ -150,7 +150,13 @@ impl Score for Bernoulli {
 
     fn score(&self, samples: &[bool]) -> Grad {
         Grad {
-            p: samples.into_iter().map(|x| 1.0 / self.pmf(x)).sum(),
+            p: samples
+                .into_iter()
+                .map(|x| match x {
+                    true => 1.0 / self.params.p.unwrap(),
+                    false => -1.0 / self.q.unwrap(),
+                })
+                .sum(),
         }
     }
 }
-- 
2.43.0


From b0254d2ce15e677ace007131956a6119f521c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 08/72] fix: Beta excess kurtosis and median

---
 src/univariate/beta.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 00dc52c..59bceb5 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -1,5 +1,4 @@
 use crate::{
-    consts::{ONE_THIRD, TWO_THIRDS},
     fitting::{Likelihood, Score},
     statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
     ContinuousDistribution,
@@ -110,7 +109,7 @@ impl UvMoments for Beta {
 
         let apbp2 = apb + 2.0;
 
-        3.0 * asb * asb * (apb + 1.0) - amb * apbp2 / amb / apbp2 / (apb + 3.0)
+        6.0 * (asb * asb * (apb + 1.0) - amb * apbp2) / amb / apbp2 / (apb + 3.0)
     }
 }
 
@@ -122,8 +121,6 @@ impl Quantiles for Beta {
 
         if (a - b).abs() < 1e-7 {
             0.5
-        } else if a > 1.0 && b > 1.0 {
-            (a - ONE_THIRD) / (a + b - TWO_THIRDS)
         } else if (a - 1.0).abs() < 1e-7 {
             1.0 - 2.0f64.powf(-1.0 / b)
         } else if (b - 1.0).abs() < 1e-7 {
@@ -133,7 +130,7 @@ impl Quantiles for Beta {
         } else if (a - 2.0).abs() < 1e-7 && (b - 3.0).abs() < 1e-7 {
             0.38572756813238945
         } else {
-            undefined!()
+            0.5f64.betainc_inv(a, b)
         }
     }
 }
-- 
2.43.0


From b0896c21f490b5372c168f257861be2bbd2d1898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 09/72] fix: Binomial cdf and pmf over the whole support

---
 src/univariate/binomial.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 8e19d6c..91098f1 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -66,6 +66,10 @@ impl Distribution for Binomial {
     fn cdf(&self, k: &usize) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *k >= self.params.n.0 {
+            return Probability::one();
+        }
+
         let a = (self.params.n.0 - k) as f64;
         let b = (k + 1) as f64;
 
@@ -86,6 +90,22 @@ impl DiscreteDistribution for Binomial {
     fn pmf(&self, k: &usize) -> Probability {
         let (n, p) = get_params!(self);
 
+        if *k > n {
+            return Probability::zero();
+        }
+
+        if n > 60 {
+            // The binomial coefficient may not fit into 64 bits:
+            let xlogy = |x: usize, y: f64| if x == 0 { 0.0 } else { x as f64 * y.ln() };
+            let log_bc = log_factorial_stirling(n as u64)
+                - log_factorial_stirling(*k as u64)
+                - log_factorial_stirling((n - *k) as u64);
+
+            return Probability::new_unchecked(
+                (log_bc + xlogy(*k, p.unwrap()) + xlogy(n - *k, self.q.unwrap())).exp(),
+            );
+        }
+
         let bc = choose(n as u64, *k as u64) as f64;
 
         let prob_successes = p.powi(*k as i32);
-- 
2.43.0


From db1cbb2b0083789be02c1922f6435a7c5f589aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 10/72] fix: Binomial kurtosis, median and mode

---
 src/univariate/binomial.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 91098f1..a281efe 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -134,7 +134,7 @@ impl UvMoments for Binomial {
 
     fn skewness(&self) -> f64 { (1.0 - self.params.p * 2.0) / self.variance().sqrt() }
 
-    fn kurtosis(&self) -> f64 {
+    fn excess_kurtosis(&self) -> f64 {
         let (n, p) = get_params!(self);
         let (p, q) = (p.unwrap(), self.q.unwrap());
 
@@ -145,14 +145,23 @@ impl UvMoments for Binomial {
 impl Quantiles for Binomial {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { self.mean().round() }
+    fn median(&self) -> f64 {
+        // The median lies between floor(np) and ceil(np):
+        let m = self.mean().floor();
+
+        if self.cdf(&(m as usize)).unwrap() >= 0.5 {
+            m
+        } else {
+            m + 1.0
+        }
+    }
 }
 
 impl Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
         let (n, p) = get_params!(self);
 
-        vec![(p * n as f64).floor() as usize]
+        vec![((p * (n + 1) as f64).floor() as usize).min(n)]
     }
 }
 
-- 
2.43.0


From cbb548b9105c6aedef1c0b71ae6d1f53ee255856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 11/72] fix: Categorical cdf includes the category it is asked
 for

---
 src/univariate/categorical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 5ee79bf..85f9f69 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -55,7 +55,7 @@ impl<const N: usize> Distribution for Categorical<N> {
     fn params(&self) -> Params<N> { self.0.clone() }
 
     fn cdf(&self, x: &usize) -> Probability {
-        Probability::new_unchecked(self.0.ps.iter().take(*x).sum())
+        Probability::new_unchecked(self.0.ps.iter().take(x.saturating_add(1)).sum())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> usize { self.0.ps.sample_index(rng) }
-- 
2.43.0


From 3eddfd345b41bc21e33ed369cb361693b35aae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 12/72] fix: ChiSq cdf, median and convolution

---
 src/univariate/chi_sq.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index b72f1dc..da7c822 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -46,7 +46,7 @@ impl Distribution for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        Probability::new_unchecked(ko2.gammainc(x / 2.0) / ko2.gamma())
+        Probability::new_unchecked((x / 2.0).gammainc(ko2))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -86,7 +86,7 @@ impl Quantiles for ChiSq {
     fn median(&self) -> f64 {
         let k = get_k!(self);
 
-        k * (1.0 - 2.0 / 9.0 / k).powi(3)
+        2.0 * 0.5f64.gammac_inv(k / 2.0)
     }
 }
 
@@ -110,8 +110,6 @@ impl Convolution<ChiSq> for ChiSq {
         let k1 = self.0.k.0;
         let k2 = rv.0.k.0;
 
-        assert_constraint!(k1 == k2)?;
-
         Ok(ChiSq::new_unchecked(k1 + k2))
     }
 }
-- 
2.43.0


From edb0b64c1b745a512af8574687f10ba3538109e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 13/72] fix: Exponential kurtosis and quantile

---
 src/univariate/exponential.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 0740380..87417df 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -78,13 +78,13 @@ impl UvMoments for Exponential {
 
     fn skewness(&self) -> f64 { 2.0 }
 
-    fn kurtosis(&self) -> f64 { 3.0 }
+    fn kurtosis(&self) -> f64 { 9.0 }
 
     fn excess_kurtosis(&self) -> f64 { 6.0 }
 }
 
 impl Quantiles for Exponential {
-    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap()) / get_lambda!(self) }
+    fn quantile(&self, p: Probability) -> f64 { -p.not().ln() / get_lambda!(self) }
 
     fn median(&self) -> f64 { self.mean() * 2.0f64.ln() }
 }
-- 
2.43.0


From 438f923b07c26d76cda5ec085775dc54416451bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 14/72] fix: FDist higher moments and density

---
 src/univariate/f_dist.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 0004375..9fb3ebd 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -72,10 +72,13 @@ impl ContinuousDistribution for FDist {
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
-        let numerator = ((d1 * x).powf(d1) * d2.powf(d2) / (d1 * x + d2).powf(d1 + d2)).sqrt();
-        let denominator = x * (d1 / 2.0).beta(d2 / 2.0);
+        let (d1o2, d2o2) = (d1 / 2.0, d2 / 2.0);
+        let d1od2 = d1 / d2;
 
-        numerator / denominator
+        let log_norm = d1o2 * d1od2.ln() - d1o2.logbeta(d2o2);
+        let log_tail = (d1o2 + d2o2) * (d1od2 * x).ln_1p();
+
+        x.powf(d1o2 - 1.0) * (log_norm - log_tail).exp()
     }
 }
 
@@ -107,7 +110,7 @@ impl UvMoments for FDist {
 
     fn skewness(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Skewness is undefined for values of d2 <= 6."),
+            d2 if d2 <= 6 => undefined!("Skewness is undefined for values of d2 <= 6."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
 
@@ -121,13 +124,13 @@ impl UvMoments for FDist {
 
     fn excess_kurtosis(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
+            d2 if d2 <= 8 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
                 let d2m2 = d2 - 2.0;
 
                 let numerator =
-                    12.0 * d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2;
+                    12.0 * (d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2);
                 let denominator = d1 * (d2 - 6.0) * (d2 - 8.0) * (d1 + d2m2);
 
                 numerator / denominator
-- 
2.43.0


From 6daa871dd8b29c8e9211b7f2311064bfe0caea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 15/72] fix: FoldedNormal mode

---
 src/univariate/folded_normal.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index d856ac8..387a4ec 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -126,10 +126,25 @@ impl Modes for FoldedNormal {
     fn modes(&self) -> Vec<f64> {
         let (mu, sigma) = get_params!(self);
 
-        if mu < sigma {
-            vec![0.0]
-        } else {
-            vec![mu]
+        let mu = mu.abs();
+
+        if mu <= sigma {
+            return vec![0.0];
+        }
+
+        // The mode is the positive root of x = mu tanh(mu x / sigma^2):
+        let (mut lb, mut ub) = (0.0, mu);
+
+        loop {
+            let x = lb + (ub - lb) / 2.0;
+
+            if x <= lb || x >= ub {
+                return vec![ub];
+            } else if x < mu * (mu / sigma * (x / sigma)).tanh() {
+                lb = x;
+            } else {
+                ub = x;
+            }
         }
     }
 }
-- 
2.43.0


From fdb75052c943614bada7190fb15a0d1ca4951b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 16/72] fix: Frechet draws

---
 src/univariate/frechet.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 8b18dcf..1760e33 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -1,6 +1,5 @@
 use crate::{
     statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
-    univariate::uniform::Uniform,
     ContinuousDistribution,
     Distribution,
     Probability,
@@ -49,9 +48,9 @@ impl Distribution for Frechet {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        let u = Uniform::default();
+        let u: f64 = rng.sample(rand::distributions::Open01);
 
-        (-u.sample(rng).ln()).powf(1.0 / get_alpha!(self))
+        (-u.ln()).powf(-1.0 / get_alpha!(self))
     }
 }
 
-- 
2.43.0


From 770f2724fad81705c3fd0f2708ab5780ccfea755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 17/72] fix: Gamma draws, cdf and convolution

---
 src/univariate/gamma.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 1dceb84..014d68f 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -52,7 +52,7 @@ impl Into<rand_distr::Gamma<f64>> for &Gamma {
     fn into(self) -> rand_distr::Gamma<f64> {
         let (a, b) = get_params!(self);
 
-        rand_distr::Gamma::new(a, b).unwrap()
+        rand_distr::Gamma::new(a, 1.0 / b).unwrap()
     }
 }
 
@@ -67,7 +67,7 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked(a.gammainc(b * x) / a.gamma())
+        Probability::new_unchecked((b * x).gammainc(a))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -168,12 +168,12 @@ impl Convolution<Gamma> for Gamma {
     type Output = Gamma;
 
     fn convolve(self, rv: Gamma) -> Result<Gamma, failure::Error> {
-        let (a1, beta) = get_params!(self);
-        let a2 = rv.0.alpha.0;
+        let (a1, b1) = get_params!(self);
+        let (a2, b2) = get_params!(rv);
 
-        assert_constraint!(a1 == a2)?;
+        assert_constraint!(b1 == b2)?;
 
-        Ok(Gamma::new_unchecked(a1 + a2, beta))
+        Ok(Gamma::new_unchecked(a1 + a2, b1))
     }
 }
 
-- 
2.43.0


From 948eb07cda2ad72079a51b76271a0d0b9de9800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 18/72] fix: Gamma log-likelihood and score

---
 src/univariate/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 014d68f..cd80f43 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -135,10 +135,10 @@ impl Likelihood for Gamma {
 
         let t1 = samples
             .into_iter()
-            .map(|x| am1 * (x + JITTER).ln() - b * (1.0 - x))
+            .map(|x| am1 * x.max(JITTER).ln() - b * x)
             .sum::<f64>();
 
-        t1 - n * (a * (1.0 / b).max(JITTER) + a.gamma().ln())
+        t1 + n * (a * b.ln() - a.loggamma())
     }
 }
 
@@ -154,11 +154,11 @@ impl Score for Gamma {
         let a_digamma = a.digamma();
 
         let [grad_a, grad_b] = samples.into_iter().fold([0.0; 2], |acc, x| {
-            [acc[0] + (x / b).max(JITTER).ln(), acc[1] - x]
+            [acc[0] + x.max(JITTER).ln(), acc[1] - x]
         });
 
         Grad {
-            alpha: grad_a - n * a_digamma,
+            alpha: grad_a + n * (b.ln() - a_digamma),
             beta: grad_b + n * a / b,
         }
     }
-- 
2.43.0


From 210b602c319c7aee1ea01f1b69549a44729fad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 19/72] fix: Geometric cdf and pmf for counts beyond i32, and
 the median

---
 src/univariate/geometric.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 4210129..23cd768 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -47,7 +47,7 @@ impl Distribution for Geometric {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(1.0 - self.q.powi(*k as i32 + 1))
+        Probability::new_unchecked(1.0 - self.q.powf(*k as f64 + 1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 {
@@ -61,7 +61,7 @@ impl Distribution for Geometric {
 
 impl DiscreteDistribution for Geometric {
     fn pmf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(self.params.p * self.q.powi(*k as i32))
+        Probability::new_unchecked(self.params.p * self.q.powf(*k as f64))
     }
 }
 
@@ -88,7 +88,7 @@ impl UvMoments for Geometric {
 impl Quantiles for Geometric {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { (-1.0 / self.q.log2()) - 1.0 }
+    fn median(&self) -> f64 { ((-1.0 / self.q.log2()).ceil() - 1.0).max(0.0) }
 }
 
 impl Modes for Geometric {
-- 
2.43.0


From b8b2b51bad97e6023769e529c85ff63f33d495a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 20/72] fix: InvNormal cdf, excess kurtosis and draws

---
 src/univariate/inverse_normal.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index ecaca85..be6f4ff 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -76,7 +76,16 @@ impl Distribution for InvNormal {
         let inner_term = lox_sqrt * (xom - 1.0);
 
         let term1 = self.std_norm.cdf(&inner_term).unwrap();
-        let term2 = (2.0 * lambda / mu).exp() * self.std_norm.cdf(&(&inner_term)).unwrap();
+        let outer_term = lox_sqrt * (xom + 1.0);
+        let term2 = if outer_term < 30.0 {
+            (2.0 * lambda / mu).exp() * self.std_norm.cdf(&-outer_term).unwrap()
+        } else {
+            // The factors over- and underflow, but their product does not:
+            let z2 = outer_term * outer_term;
+            let tail = (1.0 - (1.0 - 3.0 / z2) / z2) / outer_term / PI_2.sqrt();
+
+            (-inner_term * inner_term / 2.0).exp() * tail
+        };
 
         Probability::new_unchecked(term1 + term2)
     }
@@ -86,9 +95,9 @@ impl Distribution for InvNormal {
 
         let nu = self.std_norm.sample(rng);
 
-        let y = nu * nu;
-        let x = mu + mu * mu * y / 2.0 / lambda
-            - mu / 2.0 / lambda * (4.0 * mu * lambda * y + mu * mu * y * y).sqrt();
+        let y = mu * nu * nu;
+        let l2 = 2.0 * lambda;
+        let x = mu * l2 / (l2 + y + (2.0 * l2 * y + y * y).sqrt());
 
         let z = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);
 
@@ -132,7 +141,7 @@ impl UvMoments for InvNormal {
     fn excess_kurtosis(&self) -> f64 {
         let (mu, lambda) = get_params!(self);
 
-        16.0 * mu / lambda
+        15.0 * mu / lambda
     }
 }
 
-- 
2.43.0


From 0e8c7987995ce286cc9550599eb2180b7b33a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 21/72] fix: Laplace cdf and pdf

---
 src/univariate/laplace.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 973014e..2c6f1c2 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -45,7 +45,11 @@ impl Distribution for Laplace {
     fn cdf(&self, x: &f64) -> Probability {
         let (mu, b) = get_params!(self);
 
-        Probability::new_unchecked((-((x - mu).abs() / b).abs()).exp() / 2.0 / b)
+        Probability::new_unchecked(if *x <= mu {
+            ((x - mu) / b).exp() / 2.0
+        } else {
+            1.0 - ((mu - x) / b).exp() / 2.0
+        })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -60,17 +64,9 @@ impl Distribution for Laplace {
 
 impl ContinuousDistribution for Laplace {
     fn pdf(&self, x: &f64) -> f64 {
-        use std::cmp::Ordering::*;
-
         let (mu, b) = get_params!(self);
 
-        match x
-            .partial_cmp(&mu)
-            .expect("Invalid value provided for `mu`.")
-        {
-            Less | Equal => ((x - mu) / b).exp() / 2.0,
-            Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
-        }
+        (-(x - mu).abs() / b).exp() / 2.0 / b
     }
 }
 
-- 
2.43.0


From c592c5a875a6f83f4710f4224b989ae4302a29cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 22/72] fix: Laplace draws are finite

---
 src/univariate/laplace.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 2c6f1c2..d38b64a 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -53,9 +53,7 @@ impl Distribution for Laplace {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        use rand_distr::Distribution as _;
-
-        let u: f64 = rand_distr::Uniform::new(-0.5, 0.5).sample(rng);
+        let u = rng.sample::<f64, _>(rand::distributions::Open01) - 0.5;
         let (mu, b) = get_params!(self);
 
         mu - b * u.signum() * (1.0 - 2.0 * u.abs()).ln()
-- 
2.43.0


From 9f7c2a13e7ba0d48e55df54b80da085894821ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 23/72] fix: LogNormal treats Sigma as the variance of the
 logarithm throughout

---
 src/univariate/lognormal.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index c2d2cbb..8f727c9 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -18,7 +18,7 @@ pub struct LogNormal(Normal);
 
 macro_rules! get_params {
     ($self:ident) => {
-        (($self.0).0.mu.0, ($self.0).0.Sigma.0)
+        (($self.0).0.mu.0, ($self.0).0.Sigma.0.sqrt())
     };
 }
 
@@ -59,9 +59,9 @@ impl Distribution for LogNormal {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         use rand_distr::Distribution as _;
 
-        rand_distr::LogNormal::new(self.mean(), self.standard_deviation())
-            .unwrap()
-            .sample(rng)
+        let (mu, sigma) = get_params!(self);
+
+        rand_distr::LogNormal::new(mu, sigma).unwrap().sample(rng)
     }
 }
 
@@ -69,7 +69,7 @@ impl ContinuousDistribution for LogNormal {
     fn pdf(&self, x: &f64) -> f64 {
         let ln_x = x.ln();
 
-        self.0.pdf(&ln_x)
+        self.0.pdf(&ln_x) / x
     }
 }
 
@@ -90,15 +90,13 @@ impl UvMoments for LogNormal {
     }
 
     fn skewness(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (sigma2.exp() + 2.0) * (sigma2.exp() - 1.0).sqrt()
     }
 
     fn excess_kurtosis(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (4.0 * sigma2).exp() + 2.0 * (3.0 * sigma2).exp() + 3.0 * (2.0 * sigma2).exp() - 6.0
     }
@@ -128,8 +126,7 @@ impl ShannonEntropy for LogNormal {
 
 impl FisherInformation<2> for LogNormal {
     fn fisher_information(&self) -> [[f64; 2]; 2] {
-        let sigma = (self.0).0.Sigma.0;
-        let one_over_sigma2 = 1.0 / sigma / sigma;
+        let one_over_sigma2 = 1.0 / (self.0).0.Sigma.0;
 
         [
             [one_over_sigma2, 0.0],
-- 
2.43.0


From 78f9fdd224ac38d4ff7c611110c231cc1803906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 24/72] fix: Pareto requires a positive minimum and has no mass
 below it

---
 src/univariate/pareto.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 092c01d..677949c 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -9,11 +9,13 @@ use rand::Rng;
 use spaces::intervals::LeftClosed;
 use std::{f64::INFINITY, fmt};
 
-locscale_params! {
+pub use crate::params::{Scale, Shape};
+
+params! {
     #[derive(Copy)]
     Params {
-        x_m<f64>,
-        alpha<f64>
+        x_m: Scale<f64>,
+        alpha: Shape<f64>
     }
 }
 
@@ -46,7 +48,11 @@ impl Distribution for Pareto {
     fn cdf(&self, x: &f64) -> Probability {
         let (x_m, alpha) = get_params!(self);
 
-        Probability::new_unchecked(1.0 - (x_m / x).powf(alpha))
+        if *x < x_m {
+            Probability::zero()
+        } else {
+            Probability::new_unchecked(1.0 - (x_m / x).powf(alpha))
+        }
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -69,7 +75,7 @@ impl ContinuousDistribution for Pareto {
         } else {
             let alpha = self.0.alpha.0;
 
-            alpha * x_m.powf(alpha) / x.powf(alpha + 1.0)
+            alpha / x * (x_m / x).powf(alpha)
         }
     }
 }
-- 
2.43.0


From c3dfe988320b0f01cf4db72528dafe4e49da89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 25/72] fix: Poisson kurtosis and score

---
 src/univariate/poisson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 892da4b..45ef8ae 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -78,7 +78,7 @@ impl UvMoments for Poisson {
 
     fn skewness(&self) -> f64 { get_lambda!(self).powf(-ONE_HALF) }
 
-    fn kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
 }
 
 impl Quantiles for Poisson {
@@ -132,7 +132,7 @@ impl Score for Poisson {
         let l = get_lambda!(self);
 
         Grad {
-            lambda: n + samples.into_iter().sum::<u64>() as f64 / l,
+            lambda: -n + samples.into_iter().sum::<u64>() as f64 / l,
         }
     }
 }
-- 
2.43.0


From d43e217075820cc83a33d483e06ef3ccfa8b3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 26/72] fix: StudentT requires positive degrees of freedom, and
 its cdf

---
 src/univariate/student_t.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 10d0d13..ae3b5a4 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -10,12 +10,12 @@ use rand::Rng;
 use spaces::real::{Reals, reals};
 use std::fmt;
 
-pub use crate::params::Loc;
+pub use crate::params::DOF;
 
 params! {
     #[derive(Copy)]
     Params {
-        nu: Loc<f64>
+        nu: DOF<f64>
     }
 }
 
@@ -45,12 +45,24 @@ impl Distribution for StudentT {
         use special_fun::FloatSpecial;
 
         let nu = get_nu!(self);
-        let np1o2 = (nu + 1.0) / 2.0;
-        let hyp2f1 = 0.5f64.hyp2f1(np1o2, 3.0 / 2.0, -x * x / nu);
+        let x2 = x * x;
+
+        // The mass outside of [-|x|, |x|], and that within it:
+        let (outer, inner) = if x2 > nu {
+            let outer = (nu / (nu + x2)).betainc(nu / 2.0, 0.5);
+
+            (outer, 1.0 - outer)
+        } else {
+            let inner = (x2 / (nu + x2)).betainc(0.5, nu / 2.0);
+
+            (1.0 - inner, inner)
+        };
 
-        Probability::new_unchecked(
-            0.5 + x * np1o2.gamma() * hyp2f1 / (nu * PI).sqrt() * (nu / 2.0).gamma(),
-        )
+        Probability::new_unchecked(if *x > 0.0 {
+            0.5 + inner / 2.0
+        } else {
+            outer / 2.0
+        })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -68,7 +80,7 @@ impl ContinuousDistribution for StudentT {
 
         let nu = get_nu!(self);
         let np1o2 = (nu + 1.0) / 2.0;
-        let norm = np1o2.gamma() / (nu * PI).sqrt() / (nu / 2.0).gamma();
+        let norm = (np1o2.loggamma() - (nu / 2.0).loggamma()).exp() / (nu * PI).sqrt();
 
         norm * (1.0 + x * x / nu).powf(-np1o2)
     }
-- 
2.43.0


From d545aa4459d47af6adf4549dcc90adf0a2620b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 27/72] fix: Triangular mean

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 2c7b76c..53040fa 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -110,7 +110,7 @@ impl UvMoments for Triangular {
     fn mean(&self) -> f64 {
         let (a, b, c) = get_params!(self);
 
-        (a + b + c) / 2.0
+        (a + b + c) / 3.0
     }
 
     fn variance(&self) -> f64 {
-- 
2.43.0


From e1d178ba6981e03820d6c69985f82142b5665a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 28/72] fix: Weibull mode

---
 src/univariate/weibull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index 46e91ac..e921d92 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -152,7 +152,7 @@ impl Modes for Weibull {
     fn modes(&self) -> Vec<f64> {
         let k = self.0.k.0;
 
-        vec![if k > 0.0 {
+        vec![if k <= 1.0 {
             0.0
         } else {
             self.0.lambda.0 * ((k - 1.0) / k).powf(1.0 / k)
-- 
2.43.0


From aff580e8b10a3119f09f7a37ccf7d7b4123c97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 29/72] fix: discrete Uniform quantiles

---
 src/univariate/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index 8fa270d..a99ff7d 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -292,7 +292,7 @@ impl Quantiles for Uniform<i64> {
     fn quantile(&self, p: Probability) -> f64 {
         let n = self.span() as f64;
 
-        self.params.lb.0 as f64 + (p * n).floor()
+        self.params.lb.0 as f64 + ((p * n).ceil() - 1.0).max(0.0)
     }
 
     fn median(&self) -> f64 { self.params.lb.0 as f64 + self.params.width.0 as f64 / 2.0 }
-- 
2.43.0


From bf59ccc213979ab3425714e613ab4861520e1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 30/72] fix: univariate Normal kurtosis, log-likelihood and
 score

---
 src/normal/univariate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 7caad74..7fe301b 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -131,9 +131,9 @@ impl UvMoments for UvNormal {
 
     fn skewness(&self) -> f64 { 0.0 }
 
-    fn kurtosis(&self) -> f64 { 0.0 }
+    fn kurtosis(&self) -> f64 { 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { -3.0 }
+    fn excess_kurtosis(&self) -> f64 { 0.0 }
 }
 
 impl Quantiles for UvNormal {
@@ -174,7 +174,7 @@ impl Likelihood for UvNormal {
         let ls2 = Sigma.ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 / 2.0 * (PI_2.ln() + ls2)
+        -no2 * (PI_2.ln() + ls2)
             - samples
                 .into_iter()
                 .map(|x| (*x - mu).powi(2) / 2.0 / Sigma)
@@ -197,7 +197,7 @@ impl Score for UvNormal {
 
         Grad {
             mu: sum / Sigma,
-            Sigma: (sum_sq / Sigma - n) / Sigma.sqrt(),
+            Sigma: (sum_sq / Sigma - n) / 2.0 / Sigma,
         }
     }
 }
-- 
2.43.0


From c8a963bbc3be121d7ccf5e24933145d35aea33ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 31/72] fix: paired Normal log-likelihood and score

---
 src/normal/paired.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 33923f1..2f4cfee 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -151,9 +151,9 @@ impl Likelihood for PairedNormal {
         let ln_det = (sigma2_0 * sigma2_1).ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 * (ln_det + 2.0 * PI_2.ln() + samples.into_iter().map(|x| {
+        -no2 * (ln_det + 2.0 * PI_2.ln()) - samples.into_iter().map(|x| {
             (x[0] - mu[0]).powi(2) / sigma2_0 + (x[1] - mu[1]).powi(2) / sigma2_1
-        }).sum::<f64>())
+        }).sum::<f64>() / 2.0
     }
 }
 
@@ -176,8 +176,8 @@ impl Score for PairedNormal {
         Grad {
             mu: [sum[0] / sigma2_0, sum[1] / sigma2_1],
             Sigma: [
-                (sum_sq[0] / sigma2_0 - n) / sigma2_0.sqrt(),
-                (sum_sq[1] / sigma2_1 - n) / sigma2_1.sqrt()
+                (sum_sq[0] / sigma2_0 - n) / 2.0 / sigma2_0,
+                (sum_sq[1] / sigma2_1 - n) / 2.0 / sigma2_1
             ],
         }
     }
-- 
2.43.0


From fed1481963397d92d490eb06d8ce3606f58c3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 32/72] fix: Binomial draws end whatever the generator delivers

---
 src/univariate/binomial.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index a281efe..5b4b193 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -80,6 +80,24 @@ impl Distribution for Binomial {
         use rand_distr::Distribution as _;
 
         let (n, p) = get_params!(self);
+        let small_p = p.unwrap().min(self.q.unwrap());
+
+        if n as f64 * small_p < 10.0 {
+            // Inversion, which must stop at n however the masses are rounded:
+            let (nf, s) = (n as f64, small_p / (1.0 - small_p));
+            let mut mass = (nf * (-small_p).ln_1p()).exp();
+            let mut u: f64 = rng.gen();
+            let mut k = 0;
+
+            while k < n && u > mass && (u - mass != u || (k as f64) < nf * small_p) {
+                u -= mass;
+                k += 1;
+                mass *= (nf + 1.0) * s / k as f64 - s;
+            }
+
+            return if p.unwrap() > 0.5 { n - k } else { k };
+        }
+
         let dist = rand_distr::Binomial::new(n as u64, p.unwrap()).unwrap();
 
         dist.sample(rng) as usize
-- 
2.43.0


From e2bb263648545575d213c89b08759c908adde881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 33/72] fix: mixtures are only built from complete, valid parts

---
 src/mixture.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/mixture.rs b/src/mixture.rs
index 5313203..5bba687 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -74,10 +74,12 @@ where
         if components.len() != weights.len() {
             Err(MixtureError::IncompatibleParameters)?
         } else {
+            let weights = SimplexVector::new(weights)?;
+
             Ok(Mixture {
                 support: Self::compute_support(&components),
 
-                weights: SimplexVector::new(weights)?,
+                weights,
                 components,
             })
         }
@@ -108,15 +110,10 @@ where
     <C::Support as Union<C::Support>>::Output: Closure<Output = C::Support>,
 {
     fn from(params: Params<N, C::Params>) -> Mixture<N, C> {
-        let mut components: [std::mem::MaybeUninit<C>; N] = unsafe {
-            std::mem::MaybeUninit::uninit().assume_init()
-        };
-
-        params.component_params.into_iter().map(|c| c.into()).enumerate().for_each(|(i, c)| {
-            components[i].write(c);
-        });
-
-        let components: [C; N] = unsafe { (&components as *const _ as *const [C; N]).read() };
+        let components: Vec<C> = params.component_params.into_iter().map(|c| c.into()).collect();
+        let n = components.len();
+        let components: [C; N] = std::convert::TryInto::try_into(components)
+            .unwrap_or_else(|_| panic!("Expected parameters of {} components, got {}.", N, n));
 
         Mixture {
             weights: params.ps,
-- 
2.43.0


From b1c43827b2411c61dfd9bca79208d7b891e850fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 34/72] fix: Probability displays as its value, formatter
 options included

---
 src/probability.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probability.rs b/src/probability.rs
index 81c0782..d8fdb85 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -152,7 +152,7 @@ impl From<Probability> for f64 {
 }
 
 impl fmt::Display for Probability {
-    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) }
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) }
 }
 
 impl PartialEq<f64> for Probability {
-- 
2.43.0


From 8ee71a68cb2b295a7fa891b8c34b77380d4ecbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 35/72] fix: SimplexVector draws are uniform over the simplex

---
 src/probability.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/probability.rs b/src/probability.rs
index d8fdb85..1dc385a 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -1,7 +1,5 @@
 use crate::{
     params::{Param, constraints::{Constraints, Interval}},
-    univariate::uniform::Uniform,
-    Distribution,
 };
 use failure::Fail;
 use rand::Rng;
@@ -371,10 +369,10 @@ impl<const K: usize> SimplexVector<K> {
     ///
     /// This algorithm works as follows:
     ///
-    /// 1. Draw \\(K\\) independent points, \\(x_i \in [0, 1]\\), uniformly at
+    /// 1. Draw \\(K\\) independent points, \\(x_i \in (0, 1)\\), uniformly at
     /// random.
     /// 2. Apply the transformation \\(z_i = -\ln{x_i}\\).
-    /// 3. Compute the sum \\(s = \sum_i x_i\\).
+    /// 3. Compute the sum \\(s = \sum_i z_i\\).
     /// 4. Return the vector of values \\(z_i / s\\).
     ///
     /// # Examples
@@ -390,23 +388,14 @@ impl<const K: usize> SimplexVector<K> {
         let mut sum = 0.0;
         let mut probs = [0.0; K];
 
-        for i in 1..K {
-            let s = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);
+        for i in 0..K {
+            let x: f64 = rng.sample(rand::distributions::Open01);
 
-            sum += s;
-            probs[i] = -s.ln();
+            probs[i] = -x.ln();
+            sum += probs[i];
         }
 
-        let mut alt = 0.0;
-
-        for i in 1..K {
-            probs[i] /= sum;
-            alt += probs[i];
-        }
-
-        probs[0] = 1.0 - alt;
-
-        SimplexVector(probs)
+        SimplexVector(probs.map(|z| z / sum))
     }
 }
 
-- 
2.43.0


From bfdbf120505ee8ac80d7a13a751fab2c424ad1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 36/72] fix: sample_index never returns an index of zero weight

---
 src/probability.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probability.rs b/src/probability.rs
index 1dc385a..e2562c1 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -344,7 +344,9 @@ impl<const K: usize> SimplexVector<K> {
         });
         let rval: f64 = rng.gen();
 
-        cdf.position(|p| rval < p).unwrap_or(self.len() - 1)
+        cdf.position(|p| rval < p)
+            .or_else(|| self.0.iter().rposition(|p| *p > 0.0))
+            .unwrap_or(self.len() - 1)
     }
 
     /// Compute the central point of the simplex \\(x_i = 1 / K\\).
-- 
2.43.0


From 5a76ba6db8d2bd341b1f857f961bcabdc34ada54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 37/72] fix: restore probabilities and simplex vectors through
 their checked constructors

---
 src/probability.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/probability.rs b/src/probability.rs
index e2562c1..6b46164 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -20,11 +20,25 @@ pub struct InvalidProbabilityError(f64);
 #[derive(Debug, Default, Clone, Copy, PartialEq, PartialOrd)]
 #[cfg_attr(
     feature = "serde",
-    derive(Serialize, Deserialize),
+    derive(Serialize),
     serde(crate = "serde_crate")
 )]
 pub struct Probability(pub(crate) f64);
 
+#[cfg(feature = "serde")]
+impl<'de> serde_crate::Deserialize<'de> for Probability {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: serde_crate::Deserializer<'de> {
+        #[derive(Deserialize)]
+        #[serde(crate = "serde_crate")]
+        struct Probability(f64);
+
+        let unchecked: Probability = serde_crate::Deserialize::deserialize(deserializer)?;
+
+        Self::new(unchecked.0).map_err(serde_crate::de::Error::custom)
+    }
+}
+
 impl Probability {
     /// Construct a probability, checking that the argument lies in \\([0,
     /// 1]\\).
@@ -312,17 +326,33 @@ pub struct InvalidSimplexError<const K: usize>([f64; K]);
 #[derive(Clone, Debug)]
 #[cfg_attr(
     feature = "serde",
-    derive(Serialize, Deserialize),
+    derive(Serialize),
     serde(crate = "serde_crate")
 )]
 pub struct SimplexVector<const K: usize>(
     #[cfg_attr(
         feature = "serde",
-        serde(with = "crate::utils::serde_arrays")
+        serde(serialize_with = "crate::utils::serde_arrays::serialize")
     )]
     [f64; K]
 );
 
+#[cfg(feature = "serde")]
+impl<'de, const K: usize> serde_crate::Deserialize<'de> for SimplexVector<K> {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: serde_crate::Deserializer<'de> {
+        #[derive(Deserialize)]
+        #[serde(crate = "serde_crate")]
+        struct SimplexVector<const K: usize>(
+            #[serde(with = "crate::utils::serde_arrays")] [f64; K]
+        );
+
+        let unchecked: SimplexVector<K> = serde_crate::Deserialize::deserialize(deserializer)?;
+
+        Self::new(unchecked.0).map_err(serde_crate::de::Error::custom)
+    }
+}
+
 impl<const K: usize> SimplexVector<K> {
     /// Construct a new probability vector on the unit simplex.
     pub fn new(ps: [f64; K]) -> Result<SimplexVector<K>, failure::Error> {
-- 
2.43.0


From 686d2779f1e9809cebf224a093babb31b56a4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 38/72] fix: covariance matrices may have negative covariances

---
 src/normal/mod.rs         | 13 +++++++++++--
 src/params/constraints.rs | 13 +++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index fd034d9..364aa9f 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -18,6 +18,11 @@ pub use crate::params::Loc;
 )]
 pub struct Covariance<S>(pub S);
 
+const FINITE: constraints::Interval<f64> = constraints::Interval {
+    lb: std::f64::MIN,
+    ub: std::f64::MAX,
+};
+
 /// Dense covariance matrix parameter \\(\\bm{\\Sigma}\\).
 pub type MatrixCovariance<const N: usize> = Covariance<[[f64; N]; N]>;
 
@@ -33,7 +38,10 @@ impl<const N: usize> MatrixCovariance<N> {
     pub fn matrix(Sigma: [[f64; N]; N]) -> Result<Self, failure::Error> {
         let c = constraints::And((
             constraints::Square,
-            constraints::All(constraints::All(constraints::NonNegative))
+            constraints::And((
+                constraints::All(constraints::All(FINITE)),
+                constraints::Diagonal(constraints::NonNegative)
+            ))
         ));
 
         Ok(Covariance(c.check(Sigma)?))
@@ -50,7 +58,8 @@ impl<const N: usize> Param for MatrixCovariance<N> {
     fn constraints() -> Constraints<Self::Value> {
         vec![
             Box::new(constraints::Square),
-            Box::new(constraints::All(constraints::All(constraints::Positive)))
+            Box::new(constraints::All(constraints::All(FINITE))),
+            Box::new(constraints::Diagonal(constraints::NonNegative))
         ]
     }
 }
diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index 725edd7..4da925f 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -415,6 +415,19 @@ impl<const N: usize, T> Constraint<[[T; N]; N]> for Square {
     fn is_satisfied_by(&self, matrix: &[[T; N]; N]) -> bool { true }
 }
 
+#[derive(Debug, Clone, Copy)]
+pub struct Diagonal<C>(pub C);
+
+impl<C: Display> Display for Diagonal<C> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "Diagonal({})", self.0) }
+}
+
+impl<const N: usize, T, C: Constraint<T>> Constraint<[[T; N]; N]> for Diagonal<C> {
+    fn is_satisfied_by(&self, matrix: &[[T; N]; N]) -> bool {
+        (0..N).all(|i| self.0.is_satisfied_by(&matrix[i][i]))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 23b27456b9788b39fecb817970f3545421382629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 39/72] fix: list the constraints of bivariate covariances and
 simplex vectors

---
 src/normal/mod.rs         |  7 ++++++-
 src/params/constraints.rs | 30 ++++++++++++++++++++++++++++++
 src/probability.rs        |  9 +++++++--
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 364aa9f..c38a691 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -129,7 +129,12 @@ impl Param for BivariateCovariance {
 
     fn into_value(self) -> Self::Value { self.0 }
 
-    fn constraints() -> Constraints<Self::Value> { todo!() }
+    fn constraints() -> Constraints<Self::Value> {
+        let c_sigma = constraints::All(constraints::Positive);
+        let c_rho = constraints::Interval { lb: -1.0, ub: 1.0, };
+
+        vec![Box::new(constraints::Pair((c_sigma, c_rho)))]
+    }
 }
 
 /// Diagonal covariance matrix parameter \\(\\mathrm{diag}(\\sigma_1^2, \\sigma_2^2)\\) in
diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index 4da925f..0104ee1 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -428,6 +428,36 @@ impl<const N: usize, T, C: Constraint<T>> Constraint<[[T; N]; N]> for Diagonal<C
     }
 }
 
+/// Applies one constraint to each part of a pair.
+#[derive(Debug, Clone, Copy)]
+pub struct Pair<C1, C2>(pub (C1, C2));
+
+impl<C1: Display, C2: Display> Display for Pair<C1, C2> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        write!(f, "Pair({}, {})", (self.0).0, (self.0).1)
+    }
+}
+
+impl<T1, T2, C1: Constraint<T1>, C2: Constraint<T2>> Constraint<(T1, T2)> for Pair<C1, C2> {
+    fn is_satisfied_by(&self, value: &(T1, T2)) -> bool {
+        (self.0).0.is_satisfied_by(&value.0) && (self.0).1.is_satisfied_by(&value.1)
+    }
+}
+
+/// Requires the entries of an array to sum to one.
+#[derive(Debug, Clone, Copy)]
+pub struct SumsToOne;
+
+impl Display for SumsToOne {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "SumsToOne") }
+}
+
+impl<const N: usize> Constraint<[f64; N]> for SumsToOne {
+    fn is_satisfied_by(&self, value: &[f64; N]) -> bool {
+        (value.iter().fold(0.0, |acc, v| acc + v) - 1.0).abs() < 1e-5
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/probability.rs b/src/probability.rs
index 6b46164..25e3cdb 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -1,5 +1,5 @@
 use crate::{
-    params::{Param, constraints::{Constraints, Interval}},
+    params::{Param, constraints::{All, Constraints, Interval, SumsToOne}},
 };
 use failure::Fail;
 use rand::Rng;
@@ -462,7 +462,12 @@ impl<const K: usize> Param for SimplexVector<K> {
 
     fn into_value(self) -> [f64; K] { self.0 }
 
-    fn constraints() -> Constraints<[f64; K]> { todo![] }
+    fn constraints() -> Constraints<[f64; K]> {
+        vec![
+            Box::new(All(Interval { lb: 0.0, ub: 1.0, })),
+            Box::new(SumsToOne),
+        ]
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7bf6b3b250fc9902cc0b6eb12cfa0390597ccf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 40/72] fix: restore covariances and mixtures through their
 constraints

---
 src/mixture.rs    | 27 ++++++++++++++++++++++++++-
 src/normal/mod.rs | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/src/mixture.rs b/src/mixture.rs
index 5bba687..bd9e2c3 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -13,7 +13,7 @@ use spaces::{Space, ops::{Union, Closure}};
 #[derive(Debug, Clone)]
 #[cfg_attr(
     feature = "serde",
-    derive(Serialize, Deserialize),
+    derive(Serialize),
     serde(crate = "serde_crate")
 )]
 pub struct Params<const N: usize, CP> {
@@ -21,6 +21,31 @@ pub struct Params<const N: usize, CP> {
     pub component_params: Vec<CP>,
 }
 
+#[cfg(feature = "serde")]
+impl<'de, const N: usize, CP> serde_crate::Deserialize<'de> for Params<N, CP>
+where
+    CP: serde_crate::Deserialize<'de>,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: serde_crate::Deserializer<'de> {
+        #[derive(Deserialize)]
+        #[serde(crate = "serde_crate")]
+        struct Params<const N: usize, CP> {
+            ps: SimplexVector<N>,
+            component_params: Vec<CP>,
+        }
+
+        let Params { ps, component_params } =
+            Params::<N, CP>::deserialize(deserializer)?;
+
+        if component_params.len() == N {
+            Ok(Self { ps, component_params })
+        } else {
+            Err(serde_crate::de::Error::custom(MixtureError::IncompatibleParameters))
+        }
+    }
+}
+
 #[derive(Clone, Debug, Fail)]
 pub enum MixtureError {
     #[fail(display = "Incompatible parameters.")]
diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index c38a691..594d5b4 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -13,11 +13,37 @@ pub use crate::params::Loc;
 #[derive(Debug, Clone, Copy)]
 #[cfg_attr(
     feature = "serde",
-    derive(Serialize, Deserialize),
+    derive(Serialize),
     serde(crate = "serde_crate")
 )]
 pub struct Covariance<S>(pub S);
 
+#[cfg(feature = "serde")]
+impl<'de, S> serde_crate::Deserialize<'de> for Covariance<S>
+where
+    S: serde_crate::Deserialize<'de>,
+    Covariance<S>: Param<Value = S>,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: serde_crate::Deserializer<'de> {
+        #[derive(Deserialize)]
+        #[serde(crate = "serde_crate")]
+        struct Covariance<S>(S);
+
+        let unchecked: Covariance<S> = serde_crate::Deserialize::deserialize(deserializer)?;
+
+        for c in Self::constraints() {
+            if !c.is_satisfied_by(&unchecked.0) {
+                return Err(serde_crate::de::Error::custom(
+                    format_args!("Constraint {} is unsatisfied.", c)
+                ));
+            }
+        }
+
+        Ok(Self(unchecked.0))
+    }
+}
+
 const FINITE: constraints::Interval<f64> = constraints::Interval {
     lb: std::f64::MIN,
     ub: std::f64::MAX,
@@ -190,7 +216,11 @@ impl Param for Covariance<f64> {
 #[cfg_attr(
     feature = "serde",
     derive(Serialize, Deserialize),
-    serde(crate = "serde_crate")
+    serde(
+        crate = "serde_crate",
+        bound(deserialize = "Loc<M>: serde_crate::Deserialize<'de>, \
+                             Covariance<S>: serde_crate::Deserialize<'de>")
+    )
 )]
 pub struct Params<M, S> {
     /// The mean parameter \\(\\bm{\\mu}\\).
-- 
2.43.0


From d706bf10f2240e94f8947760e5f39f98d333abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 41/72] fix: correlations divide by the standard deviations

---
 src/statistics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics.rs b/src/statistics.rs
index dca7062..376fa67 100644
--- a/src/statistics.rs
+++ b/src/statistics.rs
@@ -65,7 +65,7 @@ pub trait MvMoments<const N: usize>: Multivariate<N> {
 
         for i in 0..N {
             for j in 0..N {
-                cor[i][j] = cov[i][j] * (cov[i][i] * cov[j][j]).sqrt();
+                cor[i][j] = cov[i][j] / (cov[i][i] * cov[j][j]).sqrt();
             }
         }
 
-- 
2.43.0


From aab12362fd7904e82264247f2af11c7e856b9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 42/72] fix: multivariate Normal densities

---
 src/normal/multivariate.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index c4be7b6..b70ac74 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -252,11 +252,11 @@ impl<const N: usize> Mahalanobis for MvNormal<N> {
 
             res
         };
-        let Az = unsafe { linalg::mv_mult(&self.precision, z.clone()) };
 
-        IntoIterator::into_iter(z)
-            .zip(IntoIterator::into_iter(Az))
-            .map(|(zi, Azi)| zi * Azi)
+        self.precision
+            .iter()
+            .zip(z.iter())
+            .map(|(row, zi)| zi * row.iter().zip(z.iter()).map(|(a, zj)| a * zj).sum::<f64>())
             .sum()
     }
 }
@@ -432,7 +432,7 @@ impl<const N: usize> Mahalanobis for DiagonalNormal<N> {
             .zip(self.params.mu.0.iter())
             .map(|(x, y)| x - y)
             .zip(self.precision.iter())
-            .map(|(d, si)| d * si * si)
+            .map(|(d, p)| d * d * p)
             .sum()
     }
 }
@@ -673,7 +673,7 @@ impl<const N: usize> Mahalanobis for IsotropicNormal<N> {
     fn d_mahalanobis_squared(&self, x: &[f64; N]) -> f64 {
         x.into_iter()
             .zip(self.params.mu.0.iter())
-            .map(|(x, y)| (x - y) * self.precision * self.precision)
+            .map(|(x, y)| (x - y) * (x - y) * self.precision)
             .sum()
     }
 }
-- 
2.43.0


From bf19f36458cb8367143516487a55c96dc61e30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 43/72] fix: multivariate Normal draws have the given variances

---
 src/normal/multivariate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index b70ac74..b37808f 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -362,7 +362,7 @@ impl<const N: usize> DiagonalNormal<N> {
         };
 
         MvNormal {
-            Sigma_lt: params.Sigma.0.clone(),
+            Sigma_lt: params.Sigma.0.map(f64::sqrt),
             Sigma_det: params.Sigma.0.iter().product(),
             precision: params.Sigma.0.map(|v| 1.0 / v),
             params,
@@ -535,7 +535,7 @@ impl<const N: usize> IsotropicNormal<N> {
         };
 
         MvNormal {
-            Sigma_lt: params.Sigma.0,
+            Sigma_lt: params.Sigma.0.sqrt(),
             Sigma_det: params.Sigma.0.powi(params.mu.0.len() as i32),
             precision: 1.0 / params.Sigma.0,
             params,
-- 
2.43.0


From a4b36613cea9ff1f91e9103746c24063f9d608eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 44/72] fix: multivariate LogNormal density and covariance

---
 src/multivariate/lognormal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 2c424c5..cd83c4f 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -97,7 +97,7 @@ where
     fn pdf(&self, x: &[f64; N]) -> f64 {
         let log_x = x.map(|v| v.ln());
 
-        self.0.pdf(&log_x)
+        self.0.pdf(&log_x) / x.iter().product::<f64>()
     }
 }
 
@@ -122,13 +122,13 @@ where
     }
 
     fn covariance(&self) -> [[f64; N]; N] {
-        let mu = self.0.mean();
+        let var = self.0.variance();
         let mut cov = self.0.covariance();
 
         macro_rules! update_index {
             ($i:ident, $j:ident) => {
                 let x = self.0.params.mu.0[$i] + self.0.params.mu.0[$j];
-                let y = (cov[$i][$i] + cov[$j][$j]) / 2.0;
+                let y = (var[$i] + var[$j]) / 2.0;
                 let z = cov[$i][$j].exp() - 1.0;
 
                 cov[$i][$j] = (x + y).exp() * z;
-- 
2.43.0


From b5dec569be4917074a7d7eb63fa77cd253fc12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 45/72] fix: Dirichlet draws lie on the simplex

---
 src/multivariate/dirichlet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 0fc42eb..77c9af6 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -69,7 +69,7 @@ impl<const N: usize> Distribution for Dirichlet<N> {
             let a = self.alphas.0[i];
             let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
 
-            sum += a;
+            sum += s;
             sample[i] = s;
         }
 
-- 
2.43.0


From 2b5fffb4a1d0b73bb3975a58ff10181aad344cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 46/72] fix: Dirichlet has no interior mode for concentrations
 up to one

---
 src/multivariate/dirichlet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 77c9af6..576fe2e 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -128,6 +128,10 @@ impl<const N: usize> MvMoments<N> for Dirichlet<N> {
 
 impl<const N: usize> Modes for Dirichlet<N> {
     fn modes(&self) -> Vec<[f64; N]> {
+        if self.alphas.0.iter().any(|a| *a <= 1.0) {
+            return vec![];
+        }
+
         let k = self.alphas.0.len() as f64;
 
         vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]
-- 
2.43.0


From af986335a5d4b42583697791e18122157267e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 47/72] fix: Binomial draws never panic

---
 src/univariate/binomial.rs | 47 +++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 5b4b193..a1cb781 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -79,28 +79,39 @@ impl Distribution for Binomial {
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> usize {
         use rand_distr::Distribution as _;
 
-        let (n, p) = get_params!(self);
-        let small_p = p.unwrap().min(self.q.unwrap());
-
-        if n as f64 * small_p < 10.0 {
-            // Inversion, which must stop at n however the masses are rounded:
-            let (nf, s) = (n as f64, small_p / (1.0 - small_p));
-            let mut mass = (nf * (-small_p).ln_1p()).exp();
-            let mut u: f64 = rng.gen();
-            let mut k = 0;
-
-            while k < n && u > mass && (u - mass != u || (k as f64) < nf * small_p) {
-                u -= mass;
-                k += 1;
-                mass *= (nf + 1.0) * s / k as f64 - s;
+        let (mut n, mut p) = (self.params.n.0, self.params.p.unwrap());
+        let mut successes = 0;
+
+        // Count the uniform variates below p by drawing the one in the middle, until few are left:
+        while n as f64 * p.min(1.0 - p) >= 10.0 {
+            let i = n / 2 + 1;
+            let x = rand_distr::Beta::new(i as f64, (n + 1 - i) as f64).unwrap().sample(rng);
+
+            if x < p {
+                successes += i;
+                n -= i;
+                p = (p - x) / (1.0 - x);
+            } else {
+                n = i - 1;
+                p /= x;
             }
-
-            return if p.unwrap() > 0.5 { n - k } else { k };
         }
 
-        let dist = rand_distr::Binomial::new(n as u64, p.unwrap()).unwrap();
+        // Inversion, which must stop at n however the masses are rounded:
+        let (nf, small_p) = (n as f64, p.min(1.0 - p));
+        let odds = small_p / (1.0 - small_p);
+
+        let mut mass = (nf * (-small_p).ln_1p()).exp();
+        let mut u: f64 = rng.gen();
+        let mut k = 0;
+
+        while k < n && u > mass && (u - mass != u || (k as f64) < nf * small_p) {
+            u -= mass;
+            k += 1;
+            mass *= (nf + 1.0) * odds / k as f64 - odds;
+        }
 
-        dist.sample(rng) as usize
+        successes + if p > 0.5 { n - k } else { k }
     }
 }
 
-- 
2.43.0


From 8dd76a1d523d0c7503e06dd371b37097d574809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 48/72] fix: StudentT draws are never NaN

---
 src/univariate/student_t.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index ae3b5a4..89fdd0d 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -68,9 +68,16 @@ impl Distribution for StudentT {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         use rand_distr::Distribution as _;
 
-        rand_distr::StudentT::new(get_nu!(self))
-            .unwrap()
-            .sample(rng)
+        let dist = rand_distr::StudentT::new(get_nu!(self)).unwrap();
+
+        loop {
+            let x = dist.sample(rng);
+
+            // Both variates of the ratio may be zero:
+            if !x.is_nan() {
+                return x;
+            }
+        }
     }
 }
 
-- 
2.43.0


From 39fd4c1c6b693fb5728cb3b5b25f659d9e24a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 49/72] fix: FDist draws are never NaN

---
 src/univariate/f_dist.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 9fb3ebd..0499b83 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -59,9 +59,16 @@ impl Distribution for FDist {
 
         let (d1, d2) = get_params!(self);
 
-        rand_distr::FisherF::new(d1 as f64, d2 as f64)
-            .unwrap()
-            .sample(rng)
+        let dist = rand_distr::FisherF::new(d1 as f64, d2 as f64).unwrap();
+
+        loop {
+            let x = dist.sample(rng);
+
+            // Both variates of the ratio may be zero:
+            if !x.is_nan() {
+                return x;
+            }
+        }
     }
 }
 
-- 
2.43.0


From ae2c17861827d7528a7085bf239edd2f14d6928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 50/72] fix: Dirichlet draws do not underflow to NaN for small
 concentrations

---
 src/multivariate/dirichlet.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 576fe2e..65d5eb1 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -60,24 +60,22 @@ impl<const N: usize> Distribution for Dirichlet<N> {
     fn cdf(&self, _: &[f64; N]) -> Probability { todo!() }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> [f64; N] {
-        use rand_distr::Gamma as GammaSampler;
+        use rand_distr::{Gamma as GammaSampler, OpenClosed01};
 
-        let mut sum = 0.0f64;
-        let mut sample = [0.0; N];
+        // Gamma(a) variates with a << 1 underflow, so we handle them as logarithms using the
+        // identity Gamma(a) ~ Gamma(a + 1) * U^(1 / a).
+        let log_sample = self.alphas.0.map(|a| {
+            let s: f64 = rng.sample(GammaSampler::new(a + 1.0, 1.0).unwrap());
+            let u: f64 = rng.sample(OpenClosed01);
 
-        for i in 0..N {
-            let a = self.alphas.0[i];
-            let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
-
-            sum += s;
-            sample[i] = s;
-        }
+            s.ln() + u.ln() / a
+        });
+        let max = log_sample.iter().fold(f64::NEG_INFINITY, |acc, &x| acc.max(x));
 
-        for i in 0..N {
-            sample[i] /= sum;
-        }
+        let sample = log_sample.map(|x| (x - max).exp());
+        let sum = sample.iter().sum::<f64>();
 
-        sample
+        sample.map(|x| x / sum)
     }
 }
 
-- 
2.43.0


From 54bde65965c60103968c8b8f8b094dde92b04b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 51/72] fix: InvNormal has no mass outside its support

---
 src/univariate/inverse_normal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index be6f4ff..8bc9200 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -69,6 +69,10 @@ impl Distribution for InvNormal {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let (mu, lambda) = get_params!(self);
 
         let xom = x / mu;
@@ -111,6 +115,10 @@ impl Distribution for InvNormal {
 
 impl ContinuousDistribution for InvNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let (mu, lambda) = get_params!(self);
         let z = (lambda / PI_2 / x / x / x).sqrt();
 
-- 
2.43.0


From 2e7157f4759950b9e7dcbc11afef2cf0d720dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 52/72] fix: FoldedNormal has no mass outside its support

---
 src/univariate/folded_normal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 387a4ec..28ab9de 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -64,6 +64,10 @@ impl Distribution for FoldedNormal {
     fn cdf(&self, x: &f64) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         let (mu, sigma) = get_params!(self);
         let sqrt_2: f64 = 2.0f64.sqrt();
 
@@ -86,6 +90,10 @@ impl Distribution for FoldedNormal {
 
 impl ContinuousDistribution for FoldedNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (mu, sigma) = get_params!(self);
 
         let norm = PI_2.sqrt() * sigma;
-- 
2.43.0


From 632bdce947093dd69802a124341485b37fbac684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 53/72] fix: LogNormal has no mass outside its support

---
 src/univariate/lognormal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 8f727c9..23b60c0 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -51,6 +51,10 @@ impl Distribution for LogNormal {
     fn into_params(self) -> Params { self.0.into_params() }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let ln_x = x.ln();
 
         self.0.cdf(&ln_x)
@@ -67,6 +71,10 @@ impl Distribution for LogNormal {
 
 impl ContinuousDistribution for LogNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let ln_x = x.ln();
 
         self.0.pdf(&ln_x) / x
-- 
2.43.0


From 3d0f91343b03afda6639408ed00fd199d9848404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 54/72] fix: Exponential has no mass outside its support

---
 src/univariate/exponential.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 87417df..f0b79ac 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -47,6 +47,10 @@ impl Distribution for Exponential {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked(1.0 - (-get_lambda!(self) * x).exp())
     }
 
@@ -59,6 +63,10 @@ impl Distribution for Exponential {
 
 impl ContinuousDistribution for Exponential {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let l = get_lambda!(self);
 
         l * (-l * x).exp()
-- 
2.43.0


From 1619525c17f647a7cdfdea56ff286ac980a28d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 55/72] fix: ChiSq has no mass outside its support

---
 src/univariate/chi_sq.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index da7c822..69e47c9 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -43,6 +43,10 @@ impl Distribution for ChiSq {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
@@ -60,6 +64,10 @@ impl Distribution for ChiSq {
 
 impl ContinuousDistribution for ChiSq {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
         let norm = 2.0f64.powf(ko2) * ko2.gamma();
-- 
2.43.0


From ab29f4c92424ead403e7395948273fa9ac644a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 56/72] fix: Frechet has no mass outside its support

---
 src/univariate/frechet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 1760e33..e18ea59 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -44,6 +44,10 @@ impl Distribution for Frechet {
     fn params(&self) -> Params { Params::new_unchecked(get_alpha!(self)) }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked((-(x.powf(-get_alpha!(self)))).exp())
     }
 
@@ -56,6 +60,10 @@ impl Distribution for Frechet {
 
 impl ContinuousDistribution for Frechet {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let cdf = self.cdf(x).unwrap();
         let alpha = get_alpha!(self);
 
-- 
2.43.0


From 3c0c9676be27c2649c13c42685b156043d735d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 57/72] fix: Kumaraswamy has no mass outside its support

---
 src/univariate/kumaraswamy.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index 0a65ff7..2b72494 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -48,6 +48,12 @@ impl Distribution for Kumaraswamy {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        } else if *x > 1.0 {
+            return Probability::one();
+        }
+
         let (a, b) = get_params!(self);
 
         Probability::new_unchecked(1.0 - (1.0 - x.powf(a)).powf(b))
@@ -63,6 +69,10 @@ impl Distribution for Kumaraswamy {
 
 impl ContinuousDistribution for Kumaraswamy {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         a * b * x.powf(a - 1.0) * (1.0 - x.powf(a)).powf(b - 1.0)
-- 
2.43.0


From 91947adb3990872e025991c3bbf04269fa87fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 58/72] fix: Gamma has no mass outside its support

---
 src/univariate/gamma.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index cd80f43..4db5ca9 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -65,6 +65,10 @@ impl Distribution for Gamma {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         let (a, b) = get_params!(self);
 
         Probability::new_unchecked((b * x).gammainc(a))
@@ -81,6 +85,10 @@ impl Distribution for Gamma {
 
 impl ContinuousDistribution for Gamma {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         b.powf(a) * x.powf(a - 1.0) * (-b * x).exp() / a.gamma()
-- 
2.43.0


From 2738736ce4d2f382cf9d76a4ec89f347f9ee8d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 59/72] fix: Beta has no mass outside its support

---
 src/univariate/beta.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 59bceb5..51afb09 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -52,6 +52,12 @@ impl Distribution for Beta {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x < 0.0 {
+            return Probability::zero();
+        } else if *x > 1.0 {
+            return Probability::one();
+        }
+
         let (alpha, beta) = get_params!(self);
 
         Probability::new_unchecked(x.betainc(alpha, beta))
@@ -68,6 +74,10 @@ impl Distribution for Beta {
 
 impl ContinuousDistribution for Beta {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
-- 
2.43.0


From c2dd78f32d99f4868bcc15da94d300dfc43c928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 60/72] fix: FDist has no mass outside its support

---
 src/univariate/f_dist.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 0499b83..f10422b 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -46,6 +46,10 @@ impl Distribution for FDist {
     fn cdf(&self, x: &f64) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *x < 0.0 {
+            return Probability::zero();
+        }
+
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
@@ -76,6 +80,10 @@ impl ContinuousDistribution for FDist {
     fn pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
-- 
2.43.0


From d2cb69c11f6a052204078dc3d101c1af61946965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 61/72] fix: Triangular draws are not rounded out of the
 support

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 53040fa..853988f 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -82,7 +82,7 @@ impl Distribution for Triangular {
 
         let (a, b, c) = get_params!(self);
 
-        rand_distr::Triangular::new(a, b, c).unwrap().sample(rng)
+        rand_distr::Triangular::new(a, b, c).unwrap().sample(rng).max(a).min(b)
     }
 }
 
-- 
2.43.0


From 79097ed881c71e595658a6aaf40522b4652ca8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 62/72] fix: the density of Gamma is NaN for large shapes

---
 src/univariate/gamma.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 4db5ca9..71b1f03 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -91,7 +91,10 @@ impl ContinuousDistribution for Gamma {
 
         let (a, b) = get_params!(self);
 
-        b.powf(a) * x.powf(a - 1.0) * (-b * x).exp() / a.gamma()
+        // The factors may overflow on their own, so they are combined as logarithms:
+        let am1_ln_x = if a == 1.0 { 0.0 } else { (a - 1.0) * x.ln() };
+
+        (a * b.ln() + am1_ln_x - b * x - a.loggamma()).exp()
     }
 }
 
-- 
2.43.0


From aa56c64f7ddb6696037a58cf6b11c00988e6b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 63/72] fix: the density of ChiSq is NaN for many degrees of
 freedom

---
 src/univariate/chi_sq.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 69e47c9..9fd9c03 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -70,9 +70,10 @@ impl ContinuousDistribution for ChiSq {
 
         let k = get_k!(self);
         let ko2 = k / 2.0;
-        let norm = 2.0f64.powf(ko2) * ko2.gamma();
+        // The factors may overflow on their own, so they are combined as logarithms:
+        let ko2m1_ln_x = if k == 2.0 { 0.0 } else { (ko2 - 1.0) * x.ln() };
 
-        x.powf(ko2 - 1.0) * (-x / 2.0).exp() / norm
+        (ko2m1_ln_x - x / 2.0 - ko2 * 2.0f64.ln() - ko2.loggamma()).exp()
     }
 }
 
-- 
2.43.0


From 24443961c38b64d63b8e87e1eb379bf270dfb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 64/72] fix: the density of Beta is NaN for large shapes

---
 src/univariate/beta.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 51afb09..3929808 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -80,10 +80,11 @@ impl ContinuousDistribution for Beta {
 
         let (a, b) = get_params!(self);
 
-        let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
-        let denominator = a.beta(b);
+        // The factors may underflow on their own, so they are combined as logarithms:
+        let am1_ln_x = if a == 1.0 { 0.0 } else { (a - 1.0) * x.ln() };
+        let bm1_ln_1mx = if b == 1.0 { 0.0 } else { (b - 1.0) * (-x).ln_1p() };
 
-        numerator / denominator
+        (am1_ln_x + bm1_ln_1mx - a.logbeta(b)).exp()
     }
 }
 
-- 
2.43.0


From 8b76977becf0a8bd33a057129a523dc090ecb299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 65/72] fix: the density of FDist is NaN for many degrees of
 freedom

---
 src/univariate/f_dist.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index f10422b..908cb01 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -93,7 +93,9 @@ impl ContinuousDistribution for FDist {
         let log_norm = d1o2 * d1od2.ln() - d1o2.logbeta(d2o2);
         let log_tail = (d1o2 + d2o2) * (d1od2 * x).ln_1p();
 
-        x.powf(d1o2 - 1.0) * (log_norm - log_tail).exp()
+        let log_head = if d1 == 2.0 { 0.0 } else { (d1o2 - 1.0) * x.ln() };
+
+        (log_norm + log_head - log_tail).exp()
     }
 }
 
-- 
2.43.0


From 477cee51e17c09c00645d7eae50ec74cc15a780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 66/72] fix: the cdf of UvNormal is NaN far from the mean

---
 src/normal/univariate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 7fe301b..0741887 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -100,7 +100,8 @@ impl Distribution for UvNormal {
                     1.0
                 }
             },
-            _ => self.z(*x).norm(),
+            // Beyond 40 standard deviations the cdf is 0 or 1 to double precision:
+            _ => self.z(*x).clamp(-40.0, 40.0).norm(),
         })
     }
 
-- 
2.43.0


From 6c1b7a9d2b290173a4dc61e020a5d9d54fb75e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:05 +0000
Subject: [PATCH 67/72] fix: the median of Poisson is negative for small rates

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 45ef8ae..ea02aa0 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -87,7 +87,7 @@ impl Quantiles for Poisson {
     fn median(&self) -> f64 {
         let l = get_lambda!(self);
 
-        (l + ONE_THIRD - 0.02 / l).floor()
+        (l + ONE_THIRD - 0.02 / l).floor().max(0.0)
     }
 }
 
-- 
2.43.0


From d656ef79e5aa9d9cc2ec5a8c954d7a6c37dd23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 68/72] fix: the cdf of Gamma is NaN at infinity

---
 src/univariate/gamma.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 71b1f03..788a970 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -70,8 +70,13 @@ impl Distribution for Gamma {
         }
 
         let (a, b) = get_params!(self);
+        let bx = b * x;
 
-        Probability::new_unchecked((b * x).gammainc(a))
+        if bx.is_infinite() {
+            return Probability::one();
+        }
+
+        Probability::new_unchecked(bx.gammainc(a))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 4e4acc02dd2f4b2b15c62c8821d6b484135796b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 69/72] fix: the cdf of ChiSq is NaN at infinity

---
 src/univariate/chi_sq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 9fd9c03..2069caa 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -47,6 +47,10 @@ impl Distribution for ChiSq {
             return Probability::zero();
         }
 
+        if x.is_infinite() {
+            return Probability::one();
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-- 
2.43.0


From ab4089774ea6c619955544fa8d944ab8d6c3e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 70/72] fix: the cdf of FDist is NaN at infinity

---
 src/univariate/f_dist.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 908cb01..04c598c 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -53,7 +53,13 @@ impl Distribution for FDist {
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
-        let x = d1 * x / (d1 * x + d2);
+        let d1x = d1 * x;
+
+        if d1x.is_infinite() {
+            return Probability::one();
+        }
+
+        let x = d1x / (d1x + d2);
 
         Probability::new_unchecked(x.betainc(d1 / 2.0, d2 / 2.0))
     }
-- 
2.43.0


From 5d5d4bc6521c17bba7252642866072b0ffd36e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 71/72] fix: the cdf of InvNormal is NaN at infinity

---
 src/univariate/inverse_normal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 8bc9200..04be7b0 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -73,6 +73,10 @@ impl Distribution for InvNormal {
             return Probability::zero();
         }
 
+        if x.is_infinite() {
+            return Probability::one();
+        }
+
         let (mu, lambda) = get_params!(self);
 
         let xom = x / mu;
-- 
2.43.0


From 42126e53cce5308207bd7cc8392dd3d1cab27d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:55 +0000
Subject: [PATCH 72/72] fix: the cdf of InvNormal misses a term when lambda is
 about 200 mu

---
 src/univariate/inverse_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 04be7b0..932c832 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -85,12 +85,12 @@ impl Distribution for InvNormal {
 
         let term1 = self.std_norm.cdf(&inner_term).unwrap();
         let outer_term = lox_sqrt * (xom + 1.0);
-        let term2 = if outer_term < 30.0 {
+        let term2 = if outer_term < 20.0 {
             (2.0 * lambda / mu).exp() * self.std_norm.cdf(&-outer_term).unwrap()
         } else {
             // The factors over- and underflow, but their product does not:
             let z2 = outer_term * outer_term;
-            let tail = (1.0 - (1.0 - 3.0 / z2) / z2) / outer_term / PI_2.sqrt();
+            let tail = (1.0 - (1.0 - (3.0 - 15.0 / z2) / z2) / z2) / outer_term / PI_2.sqrt();
 
             (-inner_term * inner_term / 2.0).exp() * tail
         };
-- 
2.43.0

