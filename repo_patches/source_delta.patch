From fbdf8184e0ffe38b26c903a22b29b36f67572b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 01/20] fix: is_infinite of f32 and f64 reported finiteness

---
 src/math/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1b97025..1ac0302 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -460,7 +460,7 @@ impl GFloat for f32 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
@@ -653,7 +653,7 @@ impl GFloat for f64 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
-- 
2.43.0


From 6f85aa3db117ba1cd51d30b6c617d09c09ded09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 02/20] fix: f32 pi_upper was below pi

---
 src/math/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1ac0302..5366b99 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -500,7 +500,7 @@ impl GFloat for f32 {
     }
     #[inline]
     fn pi_upper() -> Self {
-        13176794.0f32 / ((1 << 22) as f32)
+        13176795.0f32 / ((1 << 22) as f32)
     }
     #[inline]
     fn tau_lower() -> Self {
-- 
2.43.0


From bf0c947f5b1c1373c95a9e7f3f449017997af0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 03/20] fix: upper bound of the product of two intervals around
 zero

---
 src/math/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 92e275f..d07f080 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -239,7 +239,7 @@ impl<T: GFloat> std::ops::Mul<Self> for Interval<T> {
             } else {
                 Self::new(
                     (a.inf * b.sup).min(a.sup * b.inf).next_down(),
-                    (a.inf * a.inf).max(b.sup * b.sup).next_up(),
+                    (a.inf * b.inf).max(a.sup * b.sup).next_up(),
                 )
             }
         }
-- 
2.43.0


From 52fc2416b68ff2e010c302054d08e9f08e657e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 04/20] fix: interval asin and acos cut off negative arguments

---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 8109230..e5c9d4c 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -135,12 +135,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn asin(self) -> Self {
         self.map_monotonic_inc(T::asin)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(-T::frac_pi_2_upper(), T::frac_pi_2_upper()))
     }
     #[inline]
     fn acos(self) -> Self {
         self.map_monotonic_dec(T::acos)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(T::zero(), T::pi_upper()))
     }
     #[inline]
     fn atan(self) -> Self {
-- 
2.43.0


From 1cdcdfe070b72a3d9ed7248fc0afb07dfd355899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 05/20] fix: interval sin and cos of intervals wider than pi

---
 src/math/interval_as_gfloat.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index e5c9d4c..a04e8e1 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -79,7 +79,7 @@ impl<T: GFloat> GFloat for Interval<T> {
 
     fn sin(self) -> Self {
         let diff = self.sup - self.inf;
-        if diff >= T::tau() {
+        if diff >= T::tau_lower() {
             return Self::new(-T::one(), T::one());
         }
 
@@ -87,6 +87,10 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if cos_inf.signum() == cos_sup.signum() {
+            // passed through the other side and back, so through both extrema
+            if diff >= T::pi_lower() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.sin(), self.sup.sin());
             Self::new(t0.next_down(), t1.next_up())
         } else {
@@ -102,7 +106,7 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     fn cos(self) -> Self {
         let diff = self.sup - self.inf;
-        if diff >= T::tau() {
+        if diff >= T::tau_lower() {
             return Self::new(-T::one(), T::one());
         }
 
@@ -110,11 +114,15 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if sin_inf.signum() == sin_sup.signum() {
+            // passed through the other side and back, so through both extrema
+            if diff >= T::pi_lower() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.cos(), self.sup.cos());
             Self::new(t0.next_down(), t1.next_up())
         } else {
             // minima
-            if sin_inf.is_positive() {
+            if sin_inf.is_positive() || sin_sup.is_negative() {
                 Self::new(-T::one(), self.inf.cos().max(self.sup.cos()).next_up())
             }
             // maxima
-- 
2.43.0


From 69bcca8639e62ff522479808c89d2eb2d03a5d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 06/20] fix: interval atan2 on the axes and its rounded pi
 offset

---
 src/math/interval_as_gfloat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index a04e8e1..c920d62 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -159,7 +159,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let y = self;
         let x = rhs;
 
-        if x.is_zero() || y.is_zero() {
+        if y.is_zero() && x.is_nonnegative() {
             Interval::zero()
         }
         // X >= 0  -> first and fourth quadrants
@@ -174,12 +174,12 @@ impl<T: GFloat> GFloat for Interval<T> {
         else if x.is_nonpositive() {
             // X <= 0 && Y >= 0 -> second quadrant
             if y.is_nonnegative() {
-                ((y / x).map_monotonic_inc(T::atan) + T::pi())
+                ((y / x).map_monotonic_inc(T::atan) + Self::pi())
                     .intersect(Interval::new(T::frac_pi_2_lower(), T::pi_upper()))
             }
             // X <= 0 && Y <= 0 -> third quadrant
             else if y.is_negative() {
-                ((y / x).map_monotonic_inc(T::atan) - T::pi())
+                ((y / x).map_monotonic_inc(T::atan) - Self::pi())
                     .intersect(Interval::new(-T::pi_upper(), -T::frac_pi_2_lower()))
             }
             // sign is uncertain. if y > 0 we get pi and if y < 0 we get -pi
-- 
2.43.0


From 1514264b015a1e85ed250fa87e5fcf83a924079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 07/20] fix: Interval::nan panicked in debug builds

---
 src/math/interval_as_gfloat.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index c920d62..20dd973 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -38,7 +38,10 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn nan() -> Self {
-        Self::new(T::nan(), T::nan())
+        Self {
+            inf: T::nan(),
+            sup: T::nan(),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 9451eac0735d508f425922aa0398092c5dca7c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 08/20] fix: interval conversions did not enclose inexact
 numbers

---
 src/math/interval_as_gfloat.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 20dd973..0d351ed 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -26,7 +26,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_i64(rhs: i64) -> Self {
-        Self::from(T::from_i64(rhs))
+        let t = T::from_i64(rhs);
+        if t.to_f64() as i128 == rhs as i128 {
+            Self::from(t)
+        } else {
+            Self::from(t).extend_by_ulp()
+        }
     }
     #[inline]
     fn from_f32(rhs: f32) -> Self {
@@ -34,7 +39,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_f64(rhs: f64) -> Self {
-        Self::from(T::from_f64(rhs))
+        let t = T::from_f64(rhs);
+        if t.to_f64() == rhs {
+            Self::from(t)
+        } else {
+            Self::from(t).extend_by_ulp()
+        }
     }
     #[inline]
     fn nan() -> Self {
-- 
2.43.0


From c60f124e48f078ae3fc4615ecf28b2c9696ccb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 09/20] fix: min_max, clamp and signum of overlapping intervals

---
 src/math/interval.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index d07f080..826d395 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -426,11 +426,23 @@ impl<T: GFloat> Scalar for Interval<T> {
         Self::new(self.inf.min(other.inf), self.sup.min(other.sup))
     }
     #[inline]
+    fn min_max(self, other: Self) -> (Self, Self) {
+        (Scalar::min(self, other), Scalar::max(self, other))
+    }
+    #[inline]
+    fn clamp(self, lo: Self, hi: Self) -> Self {
+        Scalar::min(Scalar::max(self, lo), hi)
+    }
+    #[inline]
     fn square(self) -> Self {
         self.square()
     }
 }
 impl<T: GFloat> SignedScalar for Interval<T> {
+    #[inline]
+    fn signum(self) -> Self {
+        Self::new(self.inf.signum(), self.sup.signum())
+    }
     #[inline]
     fn abs(self) -> Self {
         if self.inf.is_negative() {
-- 
2.43.0


From e1c9518fdb89b726f67c7000fd71dec4509c6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 10/20] fix: mapping interval vectors always panicked

---
 src/math/transform.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 4b5e6c4..8d37c5e 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -501,10 +501,9 @@ where
     T: Scalar,
     U: Scalar + Mul<T, Output = U>,
 {
-    assert_eq!(
-        vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)],
-        U::zero()
-    );
+    // for intervals this only has to be possibly zero
+    let w = vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)];
+    assert!(!(w < U::zero() || w > U::zero()));
     Vector3::new(
         vec.x() * m[(0, 0)] + vec.y() * m[(0, 1)] + vec.z() * m[(0, 2)],
         vec.x() * m[(1, 0)] + vec.y() * m[(1, 1)] + vec.z() * m[(1, 2)],
-- 
2.43.0


From d7286df0bb8ed112dbb7bad784f92b752a0c2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 11/20] fix: mapped normals were quadratic in z

---
 src/math/transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 8d37c5e..6e3d863 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -564,9 +564,9 @@ where
 {
     // normals are mapped by the inverse transpose of the transformation matrix
     Normal3::new(
-        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)] * n.z(),
-        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)] * n.z(),
-        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)] * n.z(),
+        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)],
+        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)],
+        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)],
     )
 }
 
-- 
2.43.0


From 88641082998a49578ecd4871f90df38c8c9a7691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 12/20] fix: mapped bounding boxes accumulated into the wrong
 axis

---
 src/geometry/bbox.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index fa31a65..869c728 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -298,11 +298,11 @@ fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
             let b = m[i][j] * bbox_pmax[j];
 
             if a < b {
-                pmin[j] += a;
-                pmax[j] += b;
+                pmin[i] += a;
+                pmax[i] += b;
             } else {
-                pmin[j] += b;
-                pmax[j] += a;
+                pmin[i] += b;
+                pmax[i] += a;
             }
         }
     }
-- 
2.43.0


From 49c246786d6f4e36e150f5a1a914ae7acee6f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 13/20] fix: PrimitiveList returned the last hit, not the
 nearest

---
 src/geometry/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 9adb447..57424ea 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -151,7 +151,7 @@ impl IntersectsRay for PrimitiveList {
         let mut result = None;
         let mut ray_mut = ray;
         for primitive_handle in self.primitives.iter() {
-            if let Some(intersection_result) = (*primitive_handle).intersect(ray) {
+            if let Some(intersection_result) = (*primitive_handle).intersect(ray_mut) {
                 ray_mut.tmax = intersection_result.t_ray;
                 result = Some(intersection_result);
             }
-- 
2.43.0


From 0965db3847ad097d07259218d6e7e42c99b87868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 14/20] fix: TransformedPrimitive reported hits in object space

---
 src/geometry/primitive.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 57424ea..e9432dd 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -110,7 +110,18 @@ impl<T: Primitive> IntersectsRay for TransformedPrimitive<T> {
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
         // note that "t" computed in object space is the same as in world space
         let transformed_ray = self.world_to_object(ray);
-        self.primitive.intersect(transformed_ray)
+        let result = self.primitive.intersect(transformed_ray)?;
+        let interaction = result.surface_interaction;
+        Some(IntersectionResult {
+            surface_interaction: SurfaceInteraction {
+                p: self.object_to_world(interaction.p),
+                n: self.object_to_world(interaction.n).normalize(),
+                uv: interaction.uv,
+                dpdu: self.object_to_world(interaction.dpdu),
+                dpdv: self.object_to_world(interaction.dpdv),
+            },
+            t_ray: result.t_ray,
+        })
     }
 
     fn do_intersect(&self, ray: Rayf) -> bool {
-- 
2.43.0


From 67dbe042037892148752852047bcefbfb3a14b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 15/20] fix: polar angles of the lower half of a sphere

---
 src/geometry/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 550ee7a..6e4f317 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -49,8 +49,8 @@ impl Sphere {
     pub fn new(radius: Float, z_min: Float, z_max: Float, phi_max: Float) -> Self {
         assert!(z_min < z_max);
 
-        let theta_min = Float::clamp(z_min / radius, Float::zero(), Float::one()).acos();
-        let theta_max = Float::clamp(z_max / radius, Float::zero(), Float::one()).acos();
+        let theta_min = Float::clamp(z_min / radius, -Float::one(), Float::one()).acos();
+        let theta_max = Float::clamp(z_max / radius, -Float::one(), Float::one()).acos();
 
         Self {
             radius,
@@ -125,7 +125,7 @@ impl IntersectsRay for Sphere {
         let t_ray = intersection_params.t_ray;
         let p = intersection_params.p;
         let phi = intersection_params.phi;
-        let theta = Float::clamp(p.z() / self.radius, Float::zero(), Float::one()).acos();
+        let theta = Float::clamp(p.z() / self.radius, -Float::one(), Float::one()).acos();
 
         let sin_theta = theta.sin();
         let (sin_phi, cos_phi) = phi.sin_cos();
-- 
2.43.0


From 4e92e4aa9c2a171aac67da58d18cde00888dc94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 16/20] fix: sphere area ignored that phi starts at -pi

---
 src/geometry/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 6e4f317..202921e 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -111,7 +111,7 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        self.phi_max * self.radius * (self.z_max - self.z_min)
+        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
     }
 }
 
-- 
2.43.0


From 16b2d9c017af90e5b2ac759170a67dff1f7dff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:06 +0000
Subject: [PATCH 17/20] fix: sphere normals at the poles were NaN

---
 src/geometry/sphere.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 202921e..838e86b 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -6,7 +6,7 @@ use crate::{
     },
     math::{
         scalar::{Float, GFloat, Scalar, SignedScalar},
-        vector::{Point2f, Point3f, Vector3f},
+        vector::{Normal3f, Point2f, Point3f, Vector3f},
     },
 };
 
@@ -157,8 +157,14 @@ impl IntersectsRay for Sphere {
         let dpdv = Vector3f::new(p.z() * cos_phi, p.z() * sin_phi, -self.radius * sin_theta)
             * (theta_max_minus_theta_min);
 
-        let surface_interaction =
-            SurfaceInteraction::new(intersection_params.p, Point2f::new(u, v), dpdu, dpdv);
+        // dpdu vanishes at the poles, so the normal is not derived from dpdu x dpdv
+        let surface_interaction = SurfaceInteraction {
+            p,
+            n: Normal3f::from(Vector3f::from(p).normalize()),
+            uv: Point2f::new(u, v),
+            dpdu,
+            dpdv,
+        };
 
         Some(IntersectionResult {
             surface_interaction,
-- 
2.43.0


From 9bf062e417056824e3a2c6da1ac9cff8c04a7950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:06 +0000
Subject: [PATCH 18/20] fix: thin lens film width covered a quarter of the
 field of view

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index b5d3887..692ae24 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -56,7 +56,7 @@ impl ThinLensCamera {
         let film_distance = focal_distance * focal_length / (focal_distance - focal_length);
 
         // field of view h
-        let film_width = Float::half() * (fov * Float::half()).tan() * film_distance;
+        let film_width = Float::two() * (fov * Float::half()).tan() * film_distance;
         let film_height = film_width / aspect_ratio;
 
         Self {
-- 
2.43.0


From f1cbd0d4fa44d9e5a65d9315a4cc133debf5e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:06 +0000
Subject: [PATCH 19/20] fix: thin lens rays did not converge on the plane of
 focus

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index 692ae24..822f254 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -95,7 +95,7 @@ impl Camera for ThinLensCamera {
         );
 
         // find t at z = -focal_distance
-        let t = -self.focal_distance / film_to_lens.direction.z();
+        let t = (-self.focal_distance - film_to_lens.origin.z()) / film_to_lens.direction.z();
         let p_at_focal_plane = film_to_lens.eval(t);
 
         // now the result is a ray passing from p_lens to p_at_focal_plane
-- 
2.43.0


From 558b1cfa5437e4b914b1d07e4df24d029ed79ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:45 +0000
Subject: [PATCH 20/20] fix: sign and range tests of intervals through the
 scalar traits missed touching bounds

[0, 1] is non-negative and lies in [0, 1], but the provided methods compare
with partial_cmp, which leaves touching intervals unordered.
---
 src/math/interval.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 826d395..bf69770 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -434,11 +434,23 @@ impl<T: GFloat> Scalar for Interval<T> {
         Scalar::min(Scalar::max(self, lo), hi)
     }
     #[inline]
+    fn in_range(self, lo: Self, hi: Self) -> bool {
+        self.inf >= lo.sup && self.sup <= hi.inf
+    }
+    #[inline]
     fn square(self) -> Self {
         self.square()
     }
 }
 impl<T: GFloat> SignedScalar for Interval<T> {
+    #[inline]
+    fn is_nonpositive(self) -> bool {
+        self.is_nonpositive()
+    }
+    #[inline]
+    fn is_nonnegative(self) -> bool {
+        self.is_nonnegative()
+    }
     #[inline]
     fn signum(self) -> Self {
         Self::new(self.inf.signum(), self.sup.signum())
-- 
2.43.0

