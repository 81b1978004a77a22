From cc28585a93edb87765a399d63b6db1f0841a0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 1/3] fix: Gauss-Jacobi rules with alpha + beta = -1 had NaN
 nodes and weights

The factor 1 + alpha + beta was divided out numerically, in the first
off-diagonal element and in the total weight, which is 0/0 there.
---
 src/jacobi/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8e276b3..95e2af8 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -113,6 +113,12 @@ impl GaussJacobi {
                 let idx_f64 = idx as f64;
                 let idx_p1 = idx_f64 + 1.0;
                 let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
+                if idx == 0 {
+                    // The factor `1 + alpha + beta` appears in both the numerator and the denominator
+                    // of the first element. It is cancelled here since it can be zero.
+                    return 2.0 / denom_sum
+                        * sqrt((1.0 + alpha.get()) * (1.0 + beta.get()) / (denom_sum + 1.0));
+                }
                 2.0 / denom_sum
                     * sqrt(
                         idx_p1
@@ -125,8 +131,7 @@ impl GaussJacobi {
             pow(2.0f64, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 1.0)
-                / (alpha.get() + beta.get() + 1.0),
+                / gamma(alpha.get() + beta.get() + 2.0),
         );
 
         // TO FIX: implement correction
-- 
2.43.0


From cccc92155cd5ad5cab67c4de303b9b89e2eb5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 2/3] fix: validate FiniteAboveNegOneF64 when deserializing
 with serde

The derived implementation accepted any f64, so values that the type
rules out (-1 and below) could be created.
---
 src/data_api.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_api.rs b/src/data_api.rs
index 5ba1fd3..29c86e1 100644
--- a/src/data_api.rs
+++ b/src/data_api.rs
@@ -24,6 +24,7 @@ pub type Weight = f64;
 
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "f64", into = "f64"))]
 #[cfg_attr(
     feature = "rkyv",
     derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
-- 
2.43.0


From 5363da0a317e15c841fb3010bf9cecc79d8cdcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 3/3] fix: rkyv traits for the second-kind Chebyshev and the
 composite rules

The rkyv feature is documented to derive the traits for the quadrature rule
structs, but GaussChebyshevSecondKind, Midpoint, Simpson and Trapezoid had none.
---
 src/chebyshev/mod.rs | 4 ++++
 src/midpoint/mod.rs  | 4 ++++
 src/simpson/mod.rs   | 4 ++++
 src/trapezoid/mod.rs | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index b6f796a..6ed0d75 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -138,6 +138,10 @@ __impl_node_weight_rule! {GaussChebyshevFirstKind, GaussChebyshevFirstKindNodes,
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 #[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct GaussChebyshevSecondKind {
     node_weight_pairs: Box<[(Node, Weight)]>,
diff --git a/src/midpoint/mod.rs b/src/midpoint/mod.rs
index 841ee2b..45576c0 100644
--- a/src/midpoint/mod.rs
+++ b/src/midpoint/mod.rs
@@ -60,6 +60,10 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 pub struct Midpoint {
     degree: NonZeroU32,
 }
diff --git a/src/simpson/mod.rs b/src/simpson/mod.rs
index 6b520a8..938622a 100644
--- a/src/simpson/mod.rs
+++ b/src/simpson/mod.rs
@@ -54,6 +54,10 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 pub struct Simpson {
     degree: NonZeroU32,
 }
diff --git a/src/trapezoid/mod.rs b/src/trapezoid/mod.rs
index 1a47860..a443177 100644
--- a/src/trapezoid/mod.rs
+++ b/src/trapezoid/mod.rs
@@ -49,6 +49,10 @@ use crate::__impl_node_rule;
 /// ```
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 pub struct Trapezoid {
     degree: NonZeroU32,
 }
-- 
2.43.0

