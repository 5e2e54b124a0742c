From 3abf816605afd6f347abf87dab5b82a87bf2368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 01/14] fix: Matrix33::inverse ignored negative entries in the
 last column

The affine shortcut was taken when m[0][2] or m[1][2] was negative and
m[2][2] was 1, returning a matrix that is not the inverse.
---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 5e45db9..e1450a9 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -267,7 +267,7 @@ where
 
     /// Matrix inverse
     pub fn inverse(self) -> Option<Matrix33<T>> {
-        if self[0][2] > T::epsilon() || self[1][2] > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
+        if self[0][2].abs() > T::epsilon() || self[1][2].abs() > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
             let mut mtx_s = Matrix33::new([
                 self[1][1] * self[2][2] - self[2][1] * self[1][2],
                 self[2][1] * self[0][2] - self[0][1] * self[2][2],
-- 
2.43.0


From 56b3d083e333d5bef90bf2f39c88b083fe5a19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 02/14] fix: Matrix33::gj_inverse chose pivots from the
 unreduced matrix

Pivots must be searched in the partially eliminated matrix; searching the
original one can divide by zero and return NaN for invertible matrices.
---
 src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index e1450a9..b27c501 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -199,10 +199,10 @@ where
         // Forward elimination
         for i in 0..2 {
             let mut pivot = i;
-            let mut pivot_size: T = self[i][i].abs();
+            let mut pivot_size: T = mtx_t[i][i].abs();
 
             for j in (i + 1)..3 {
-                let tmp = self[j][i].abs();
+                let tmp = mtx_t[j][i].abs();
                 if tmp > pivot_size {
                     pivot = j;
                     pivot_size = tmp;
-- 
2.43.0


From 54cafd625bca2aa881857fe15fcd72b0aec9ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 03/14] fix: VSPD interval detection ignored the last pair of
 samples

A spectrum whose only odd gap is the last one was reported as uniform.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6c82bfa..62218e4 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -439,7 +439,7 @@ fn calculate_interval(samples: &[Sample]) -> Interval<f64> {
         panic!("Must have at least 2 samples");
     }
     let assumed_interval = samples[1].nm - samples[0].nm;
-    for i in 1..samples.len() - 1 {
+    for i in 1..samples.len() {
         // This is safe because we guarantee we're in bounds in the for loop
         let interval = unsafe { samples.get_unchecked(i).nm - samples.get_unchecked(i - 1).nm };
         if !interval.approx_eq(assumed_interval, F64Margin { ulps: 2, epsilon: 1.0e-11 }) {
-- 
2.43.0


From 2f2fa8c616e187810ae60745c71d63cd10887e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 04/14] fix: plane-wise AVX conversion left remainder elements
 unconverted

The scalar remainder loop started at len - iterations instead of after the
last full vector, leaving zeros for most lengths that are not a multiple of
the vector width.
---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 9c42ab8..e2652b3 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -98,7 +98,7 @@ pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
     let num_iters = xs.len() / S::VF32_WIDTH;
-    let start_remaining = xs.len() - num_iters;
+    let start_remaining = num_iters * S::VF32_WIDTH;
 
     let m0 = unsafe { S::set1_ps(mtx.x[0]) };
     let m1 = unsafe { S::set1_ps(mtx.x[1]) };
-- 
2.43.0


From a368463438510433d3cb3119683f8bdff216b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 05/14] fix: refuse planes of different lengths in the AVX
 conversion

The SIMD loop reads ys and zs unchecked up to xs.len(), so shorter planes
were read out of bounds from safe code.
---
 src/transform.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transform.rs b/src/transform.rs
index e2652b3..ff53a98 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -94,6 +94,10 @@ where
 
 #[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
 pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys: &[f32], zs: &[f32]) -> (Vec<f32>, Vec<f32>, Vec<f32>) {
+    assert!(
+        xs.len() == ys.len() && xs.len() == zs.len(),
+        "plane lengths must match"
+    );
     let mut result_r = vec![0.0f32; xs.len()];
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
-- 
2.43.0


From 4b974356e78f1cfcc4b2800ba891917d0f33f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 06/14] fix: VSPD::extrapolate declared a shape its samples do
 not have

The result was labelled with the requested range even when the spectrum is
wider than it, and as uniform even when the original samples are not (or are
off the padding grid). Padding after the end also started one interval after
the declared end rather than after the last sample.
---
 src/vspd.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 62218e4..baa9cf6 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -347,16 +347,13 @@ impl VSPD {
             x += interval;
         }
         samples.extend(self.samples.iter());
-        x = self.end() + interval;
+        x = self.last().nm + interval;
         while x <= end {
             samples.push(Sample::new(x, extrap.evaluate(x)));
             x += interval;
         }
 
-        VSPD {
-            samples,
-            shape: SpdShape::new(shape.start, shape.end, interval),
-        }
+        VSPD::new(samples)
     }
 
     /// Trim this [VSPD] to lie inside the given [SpdShape].
-- 
2.43.0


From af7ee0ce03f9395868a7d5a5ae99d70bbeeffe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 07/14] fix: VSPD::align left samples off the requested grid

When the spectrum did not start on the requested grid, or did not overlap it,
the result mixed padding on one grid with samples on another (or panicked),
so that integration paired values with the wrong wavelengths.
---
 src/vspd.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index baa9cf6..c55d7be 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -310,10 +310,23 @@ impl VSPD {
         VSPD { samples, shape }
     }
 
-    /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by first
-    /// interpolating then extrapolating
+    /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by
+    /// interpolating inside the domain of this VSPD and extrapolating outside it
     pub fn align(&self, shape: SpdShape<f64>) -> VSPD {
-        self.interpolate(shape).extrapolate(shape)
+        let interp = InterpolatorSprague::<f64>::new(self);
+        let extrap = ExtrapolatorConstant::new(self);
+        let samples = shape
+            .iter()
+            .map(|nm| {
+                if nm < self.first().nm || nm > self.last().nm {
+                    Sample::new(nm, extrap.evaluate(nm))
+                } else {
+                    Sample::new(nm, interp.evaluate(nm))
+                }
+            })
+            .collect();
+
+        VSPD { samples, shape }
     }
 
     /// Create a new VSPD by extrapolating the boundaries of the domain of this
-- 
2.43.0


From cc98e6286e3c4286bf35ca54d42e113e01f99329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 08/14] fix: integrate unevenly sampled spectra over the ASTM
 E308 range

A varying VSPD was integrated over its own extent only, so the same curve
gave a different XYZ than when sampled uniformly.
---
 src/vspd.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index c55d7be..43e4d62 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -412,8 +412,7 @@ impl VSPD {
         // interpolate to make it uniform
         match self.interval() {
             Interval::Varying => {
-                let spd = self.align(SpdShape::new(self.shape.start, self.shape.end, 1.0));
-                spd_to_xyz_integration(&spd, &illuminant, &cmf, spd.shape)
+                spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
             }
             Interval::Uniform(interval) => {
                 match interval.to_usize().unwrap() {
-- 
2.43.0


From 5babf462c06ce6e44008dfa2166a9e4145b4a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 09/14] fix: to_xyz applied 5nm and 10nm tables to spectra on
 other grids

The interval was truncated to an integer, so e.g. the 10.9375nm Smits basis
was weighted as if sampled at 10nm, and 10nm spectra starting off the
360+10k grid (or lying wholly outside 360-780nm) were paired with the wrong
weights or panicked. Such spectra are now interpolated to 1nm like every other
unsupported interval, as documented.
---
 src/vspd.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 43e4d62..b0c628d 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -420,13 +420,13 @@ impl VSPD {
                         // just integrate
                         spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
                     }
-                    5 => {
+                    5 if interval == 5.0 => {
                         // Integrate at 5nm
                         let mut shape = SpdShape::astm_e308();
                         shape.interval = Interval::Uniform(5.0);
                         spd_to_xyz_integration(self, &illuminant, &cmf, shape)
                     }
-                    10 => {
+                    10 if interval == 10.0 && self.is_on_astm_e308_10nm_grid() => {
                         // use ASTME308 weighting factors
                         spd_to_xyz_tristimulus_weighting_factors_astme308(self, &illuminant, &cmf)
                     }
@@ -441,6 +441,13 @@ impl VSPD {
             }
         }
     }
+
+    /// The tristimulus weighting factors are tabulated at 360, 370, .., 780nm,
+    /// so they only apply to samples that lie on those wavelengths
+    fn is_on_astm_e308_10nm_grid(&self) -> bool {
+        let shape = SpdShape::<f64>::astm_e308();
+        (self.first().nm - shape.start) % 10.0 == 0.0 && self.first().nm <= shape.end && self.last().nm >= shape.start
+    }
 }
 
 fn calculate_interval(samples: &[Sample]) -> Interval<f64> {
-- 
2.43.0


From 4bc68cfb47846e8cf6261d43f80d5b4df934e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 10/14] fix: linspace with fewer than two steps divided by zero

Lagrange coefficients for a 2nm interval came out as NaN.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index b0c628d..06d4442 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -732,7 +732,7 @@ impl Iterator for FloatRange {
 }
 
 pub fn linspace(start: f64, end: f64, steps: usize) -> FloatRange {
-    let delta = (end - start) / (steps - 1) as f64;
+    let delta = if steps > 1 { (end - start) / (steps - 1) as f64 } else { 0.0 };
     FloatRange {
         current: 0,
         steps,
-- 
2.43.0


From 03376741c2b517d2491fb9d0da6746f13f2e67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:02 +0000
Subject: [PATCH 11/14] fix: cct(NaN) was reported as a valid daylight
 chromaticity

---
 src/illuminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/illuminant.rs b/src/illuminant.rs
index ae3b692..784e661 100644
--- a/src/illuminant.rs
+++ b/src/illuminant.rs
@@ -47,7 +47,7 @@ pub mod xy {
     {
         let t2 = t * t;
         let t3 = t2 * t;
-        if t < 4000.0 || t > 25000.0 {
+        if t.is_nan() || t < 4000.0 || t > 25000.0 {
             Err(TemperatureOutOfBound)
         } else if t <= 7000.0 {
             let xd = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
-- 
2.43.0


From 9067c1cd5e162caf61f79092b668b104af0d781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 12/14] fix: Sprague interpolation distorted spectra of fewer
 than six samples

The end extensions were computed from a truncated set of CIE coefficients, so
that even a constant two-sample spectrum did not interpolate to a constant.
---
 src/interpolation.rs | 13 ++++++++++++-
 src/vspd.rs          |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.rs b/src/interpolation.rs
index 52643b0..db1ac56 100644
--- a/src/interpolation.rs
+++ b/src/interpolation.rs
@@ -1,4 +1,4 @@
-use crate::{SpdElement, VSPD};
+use crate::{vspd::lagrange_coefficients, SpdElement, VSPD};
 
 pub struct InterpolatorSprague<T>
 where
@@ -112,6 +112,17 @@ where
             .map(|(c, s)| *c * s.v)
             .sum::<f64>();
 
+        // The coefficients above span six samples. With fewer than that,
+        // extend the polynomial through all of the samples instead
+        let (y1, y2, y3, y4) = if vspd.len() < 6 {
+            let extend = |r: f64, v: Vec<f64>| 209.0 * lagrange_coefficients(r, v.len()).iter().zip(v).map(|(c, v)| c * v).sum::<f64>();
+            let fwd = || vspd.values().collect::<Vec<_>>();
+            let rev = || vspd.values().rev().collect::<Vec<_>>();
+            (extend(-2.0, fwd()), extend(-1.0, fwd()), extend(-1.0, rev()), extend(-2.0, rev()))
+        } else {
+            (y1, y2, y3, y4)
+        };
+
         y.push(y1 / 209.0);
         y.push(y2 / 209.0);
         y.extend(vspd.iter().map(|s| s.v));
diff --git a/src/vspd.rs b/src/vspd.rs
index 06d4442..d50492d 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -699,7 +699,7 @@ fn adjust_tristimulus_weighting_factors_astme308(
     (w_x[first..last].to_vec(), w_y[first..last].to_vec(), w_z[first..last].to_vec())
 }
 
-fn lagrange_coefficients(r: f64, n: usize) -> Vec<f64> {
+pub(crate) fn lagrange_coefficients(r: f64, n: usize) -> Vec<f64> {
     #![allow(clippy::needless_range_loop)]
     let mut l_j = vec![1.0; n];
     for j in 0..n {
-- 
2.43.0


From 3af8f788037bd5a3a17e02e7304683b2a983e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 13/14] fix: ranges with a fractional interval could lose their
 last wavelength

(end - start) / interval can round to just below a whole number, e.g. for
380.0..380.5 nm in steps of 0.1 nm taken from sample positions, and was truncated.
---
 src/vspd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index d50492d..d038d33 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -77,7 +77,8 @@ where
         };
         SpdShapeIterator::<T> {
             current: 0,
-            end: ((self.end - self.start) / interval).to_usize().unwrap() + 1,
+            // the small offset keeps the last wavelength when the division rounds down
+            end: ((self.end - self.start) / interval + T::from(1.0e-6).unwrap()).to_usize().unwrap() + 1,
             start: self.start,
             interval,
         }
@@ -224,7 +225,7 @@ impl VSPD {
                 panic!("Cannot create a VSPD with varying interval");
             }
         };
-        let num_samples_from_shape = ((shape.end - shape.start) / interval) as usize + 1;
+        let num_samples_from_shape = ((shape.end - shape.start) / interval + 1.0e-6) as usize + 1;
         if num_samples_from_shape != values.len() {
             panic!(
                 "Length of values slice did not match requested shape. SpdShape has {} samples, but values slice had {} values.",
-- 
2.43.0


From b425bf6ec1d9aeaa80e0ff6c6e34278d0364bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:48 +0000
Subject: [PATCH 14/14] fix: Matrix33::inverse scaled the unit corner of affine
 matrices

---
 src/math.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math.rs b/src/math.rs
index b27c501..7fb7554 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -330,6 +330,7 @@ where
 
             mtx_s[2][0] = -self[2][0] * mtx_s[0][0] - self[2][1] * mtx_s[1][0];
             mtx_s[2][1] = -self[2][0] * mtx_s[0][1] - self[2][1] * mtx_s[1][1];
+            mtx_s[2][2] = T::one();
 
             Some(mtx_s)
         }
-- 
2.43.0

