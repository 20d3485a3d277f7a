From f481f41d6e53f5d4dad701e7849e699d31140d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 01/14] fix: LineSegment::split walks away from the end point
 instead of towards it

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index a752db3..d422de2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -25,7 +25,7 @@ where
 
     pub fn split(&self, t: P::Scalar) -> (Self, Self) {
         // compute the split point by interpolation
-        let ctrl_ab = self.start + (self.start - self.end) * t;
+        let ctrl_ab = self.start + (self.end - self.start) * t;
 
         (
             LineSegment {
-- 
2.43.0


From 9b537ddd7affb1e873c2eaff8a309834ca26f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 02/14] fix: LineSegment::distance_to_point uses the start
 point for points past the end

---
 src/line.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index d422de2..2237979 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -65,9 +65,9 @@ where
             //         .zip(v2.into_iter())
             //         .map(|(x1, x2)| x1 * x2)
             //         .sum::<P::Scalar>();
-            let mut t = P::Scalar::from(0.0);
-            if dot / l2 < P::Scalar::from(1.0) {
-                t = dot / l2;
+            let mut t = dot / l2;
+            if t > P::Scalar::from(1.0) {
+                t = P::Scalar::from(1.0);
             }
             if t < P::Scalar::from(0.0) {
                 t = P::Scalar::from(0.0);
-- 
2.43.0


From 1cc259335a3ed94db142935a7ef62d8dd735a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 03/14] fix: CubicBezier::dd drops the square in the first
 derivative weight

---
 src/cubic_bezier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 98ebf19..a48a941 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -137,7 +137,7 @@ where
     /// This function can cause out of bounds panic when axis is larger than dimension of P
     pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar {
         let t2 = t * t;
-        let c0 = t * -3.0 + t * 6.0 - 3.0;
+        let c0 = t2 * -3.0 + t * 6.0 - 3.0;
         let c1 = t2 * 9.0 - t * 12.0 + 3.0;
         let c2 = t2 * -9.0 + t * 6.0;
         let c3 = t2 * 3.0;
-- 
2.43.0


From 28e8a631559eae0aef2392dcc093eb168309fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 04/14] fix: arclen of Bezier curves leaves out the first of
 the nsteps segments

---
 src/bezier.rs           | 2 +-
 src/cubic_bezier.rs     | 2 +-
 src/quadratic_bezier.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index c220691..ee8a9d3 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -241,7 +241,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval(t);
             let p2 = self.eval(t + stepsize);
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index a48a941..0f8d404 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -76,7 +76,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = 1.0 / (nsteps as NativeFloat);
         let mut arclen = P::Scalar::from(0.0);
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 1e46751..7ef5f7d 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -148,7 +148,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
-- 
2.43.0


From f35dc8bf980b61b98f4664d8a846c2e982765a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 05/14] fix: distance_to_point of curves measures points beyond
 the curve's ends and skips its end point

---
 src/bezier.rs           | 13 ++++++-------
 src/cubic_bezier.rs     | 13 ++++++-------
 src/quadratic_bezier.rs | 13 ++++++-------
 3 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index ee8a9d3..2311e66 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -88,10 +88,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.control_points[0]).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -104,13 +104,12 @@ where
         }
         // 2. fine pass
         for i in 0..nsteps {
-            // calculate next step value ( a 64th of a 64th from first step)
+            // calculate next offset from tmin (in steps of a 64th of a 64th)
             let t: P::Scalar =
-                (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+                ((i as NativeFloat - nsteps as NativeFloat / 2.0) / ((nsteps * nsteps) as NativeFloat)).into();
+            // calculate distance to candidate centered around tmin from before, staying on the curve
+            let candidate: P = self.eval((tmin + t).max(0.0.into()).min(1.0.into()));
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 0f8d404..0445c13 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -192,10 +192,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -208,13 +208,12 @@ where
         }
         // 2. fine pass
         for i in 0..nsteps {
-            // calculate next step value ( a 64th of a 64th from first step)
+            // calculate next offset from tmin (in steps of a 64th of a 64th)
             let t: P::Scalar =
-                (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+                ((i as NativeFloat - nsteps as NativeFloat / 2.0) / ((nsteps * nsteps) as NativeFloat)).into();
+            // calculate distance to candidate centered around tmin from before, staying on the curve
+            let candidate: P = self.eval((tmin + t).max(0.0.into()).min(1.0.into()));
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 7ef5f7d..f645f29 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -198,10 +198,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
             // calculate distance to candidate
@@ -213,12 +213,11 @@ where
         }
         // 2. fine pass 
         for i in 0..nsteps {
-            // calculate next step value ( a 64th of a 64th from first step)
-            let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / ((nsteps*nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t*(nsteps as NativeFloat/ 2.0) );
+            // calculate next offset from tmin (in steps of a 64th of a 64th)
+            let t: P::Scalar = ((i as NativeFloat - nsteps as NativeFloat / 2.0) / ((nsteps * nsteps) as NativeFloat)).into();
+            // calculate distance to candidate centered around tmin from before, staying on the curve
+            let candidate: P = self.eval((tmin + t).max(0.0.into()).min(1.0.into()));
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
-- 
2.43.0


From b2cc1158b35f406df91616a12068ae2d9b903476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 06/14] fix: bounding box of nearly quadratic cubics misses the
 extremum by cancellation

---
 src/quadratic_bezier.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index f645f29..6f97cb2 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -182,9 +182,16 @@ where
         // is quadratic equation
         let delta = b * b - a * c * 4.0;
         if delta > 0.0.into() {
+            // add quantities of equal sign only: the difference of b and sqrt(delta)
+            // cancels catastrophically when a is small compared to b
             let sqrt_delta = delta.sqrt();
-            result.push((-b - sqrt_delta) / (a * 2.0));
-            result.push((-b + sqrt_delta) / (a * 2.0));
+            let q = if b < 0.0.into() {
+                (-b + sqrt_delta) / 2.0
+            } else {
+                (-b - sqrt_delta) / 2.0
+            };
+            result.push(q / a);
+            result.push(c / q);
         } else if delta.abs() < EPSILON.into() {
             result.push(-b / (a * 2.0));
         }
-- 
2.43.0


From b16c693f7fc2d6eca85edd80bccdd36bde9912c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 07/14] fix: BSpline::new accepts NaN knots

---
 src/bspline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index ebb0c5d..7ed6118 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -84,7 +84,7 @@ where
         } else if knots.len() > control_points.len() + 1 + D {
             Err(BSplineError::TooManyKnots)
         // if knots array is not non-decreasing
-        } else if knots.windows(2).any(|w| w[0] > w[1]) {
+        } else if !knots.windows(2).all(|w| w[0] <= w[1]) {
             Err(BSplineError::DecreasingKnots)
         } else {
             let is_clamped_front = knots[0..=D]
-- 
2.43.0


From dff39ce5be6a284b418ef30e1b0403c67256288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 08/14] fix: knot_domain of half-clamped B-splines includes
 parameters where the curve is undefined

---
 src/bspline.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 7ed6118..74ac9e9 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -140,7 +140,7 @@ where
 
     /// Returns the knot domain of the B-Spline.
     /// The knot domain is the range of values over which the B-Spline is defined.
-    /// The knot domain is defined as the minimum and maximum knot values.
+    /// The knot domain is defined as the range from knots[D] to knots[C] (C = K - D - 1).
     /// For a clamped B-Spline the first and last knot has multiplicity D+1.
     /// For an unclamped B-Spline the first and last knot has multiplicity 1.
     pub fn knot_domain(&self) -> (P::Scalar, P::Scalar) {
@@ -153,13 +153,13 @@ where
     }
 
     fn knot_domain_clamped_start(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[D], end at knots[knots.len() - 1]
-        (self.knots[D], self.knots[self.knots.len() - 1])
+        // The end is not clamped, so the domain ends at knots[C] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     fn knot_domain_clamped_end(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[0], end at knots[knots.len() - 1 - D] (C = K - D - 1)
-        (self.knots[0], self.knots[self.knots.len() - 1 - D])
+        // The start is not clamped, so the domain starts at knots[D]
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     // Returns the knot domain for a clamped B-Spline
-- 
2.43.0


From 0383354ed94d550d0d3c541f466003dc007af770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 09/14] fix: BSpline::eval picks the wrong knot span for
 unclamped ends and leaves out an active control point

---
 src/bspline.rs | 107 ++-----------------------------------------------
 1 file changed, 3 insertions(+), 104 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 74ac9e9..1a2c0f6 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -259,7 +259,7 @@ where
 
         // Copy the control points needed for the first iteration
         // For a B-Spline of degree D, D+1 control points in the knot span contribute to the result
-        for j in 0..D {
+        for j in 0..=D {
             d[j] = self.control_points[j + k - D];
         }
 
@@ -304,47 +304,12 @@ where
         Ok(d[D])
     }
 
-    fn knot_span_start_for_t(&self, t: P::Scalar) -> Option<usize> {
-        match self.knot_kind {
-            KnotVectorKind::Unclamped => self.knot_span_start_for_t_unclamped(t),
-            KnotVectorKind::ClampedStart => self.knot_span_start_for_t_clamped_start(t),
-            KnotVectorKind::Clamped => self.knot_span_start_for_t_clamped(t),
-            KnotVectorKind::ClampedEnd => self.knot_span_start_for_t_clamped_end(t),
-        }
-    }
-
-    /// Return the index of the start of the knot span for given `t` for an unclamped B-Spline.
-    /// This is the index of the first element that satisfies:
-    ///     knots[i] <= t < knots[i+1]
-    /// Because the knot vector is non-decreasing, this function uses binary search.
-    /// If no element greater than the value passed is found, the function returns None.
-    fn knot_span_start_for_t_unclamped(&self, t: P::Scalar) -> Option<usize> {
-        let mut first = 0usize;
-        let mut step;
-        let mut count = self.knots.len() as isize;
-        while count > 0 {
-            step = count / 2;
-            let it = first + step as usize;
-            if t < self.knots[it + 1] || (it + 1 == self.knots.len() - 2 && t == self.knots[it + 1])
-            {
-                return Some(it);
-            }
-            if t >= self.knots[it] {
-                first = it + 1;
-                count -= step + 1;
-            } else {
-                count = step;
-            }
-        }
-        None
-    }
-
-    /// Return the index of the start of the knot span for given `t` for a clamped B-Spline.
+    /// Return the index of the start of the knot span for given `t`.
     /// This is the index of the first element that satisfies:
     ///     knots[i] <= t < knots[i+1] where i >= degree and i < knots.len() - degree - 1
     /// Because the knot vector is non-decreasing, this function uses binary search.
     /// If no element greater than the value passed is found, the function returns None.
-    fn knot_span_start_for_t_clamped(&self, t: P::Scalar) -> Option<usize> {
+    fn knot_span_start_for_t(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // degree
         if t == self.knots[n + 1] {
@@ -365,72 +330,6 @@ where
         None
     }
 
-    fn knot_span_start_for_t_clamped_start(&self, t: P::Scalar) -> Option<usize> {
-        let n = self.control_points.len() - 1; // n = number of control points - 1
-        let p = D; // Degree of the spline
-        let m = self.knots.len() - 1; // Last index of the knot vector
-
-        // Special case when t equals the last knot value
-        if t == self.knots[m] {
-            return Some(n);
-        }
-
-        // Valid parameter domain is from knots[p] to knots[m]
-        if t < self.knots[p] || t > self.knots[m] {
-            return None;
-        }
-
-        // Initialize binary search indices
-        let mut low = p;
-        let mut high = m - 1; // Since we compare t with knots[mid + 1], high should be m - 1
-
-        // Binary search to find the knot span
-        while low <= high {
-            let mid = (low + high) / 2;
-            if t >= self.knots[mid] && t < self.knots[mid + 1] {
-                return Some(mid);
-            } else if t < self.knots[mid] {
-                high = mid - 1;
-            } else {
-                low = mid + 1;
-            }
-        }
-
-        None // t is not within any knot span
-    }
-
-    fn knot_span_start_for_t_clamped_end(&self, t: P::Scalar) -> Option<usize> {
-        let n = self.control_points.len() - 1; // n = number of control points - 1
-
-        // Special case when t equals knots[n + 1]
-        if t == self.knots[n + 1] {
-            return Some(n);
-        }
-
-        // Valid parameter domain is from knots[0] to knots[n + 1]
-        if t < self.knots[0] || t > self.knots[n + 1] {
-            return None;
-        }
-
-        // Initialize binary search indices
-        let mut low = 0;
-        let mut high = n; // Since we compare t with knots[mid + 1], high should be n
-
-        // Binary search to find the knot span
-        while low <= high {
-            let mid = (low + high) / 2;
-            if t >= self.knots[mid] && t < self.knots[mid + 1] {
-                return Some(mid);
-            } else if t < self.knots[mid] {
-                high = mid - 1;
-            } else {
-                low = mid + 1;
-            }
-        }
-
-        None // t is not within any knot span
-    }
-
     /// Approximates the arc length of the curve by flattening it with straight line segments.
     /// This approximation is unfeasable if desired accuracy is greater than ~2 decimal places
     pub fn arclen(&self, nsteps: usize) -> P::Scalar
-- 
2.43.0


From 36c581309df343710cf88af28fe37f508dbaf9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 10/14] fix: BSpline::eval returns the last control point at
 the end of an unclamped domain

---
 src/bspline.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 1a2c0f6..35d5e38 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -242,11 +242,6 @@ where
     where
         [(); D + 1]: Sized,
     {
-        // Special case when t equals the last knot value
-        if t == self.knots[self.control_points.len()] {
-            return Ok(self.control_points[self.control_points.len() - 1]);
-        }
-
         let k = self.knot_span_start_for_t(t);
 
         let k = match k {
@@ -313,7 +308,8 @@ where
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // degree
         if t == self.knots[n + 1] {
-            return Some(n);
+            // the end of the domain belongs to the last span that is not empty
+            return (p..=n).rev().find(|&i| self.knots[i] < t).or(Some(n));
         }
         let mut low = p;
         let mut high = n;
-- 
2.43.0


From b03faff5937e369a64c4076a32ab79f40c66f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 11/14] fix: BSpline::derivative keeps two knots too many, so
 evaluating it uses the wrong ones

---
 src/bspline.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 35d5e38..3d9fe48 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -356,14 +356,13 @@ where
 
     /// Returns the derivative curve of self which has N-1 control points.
     /// The derivative of an nth degree B-Spline curve is an (n-1)th degree (d) B-Spline curve,
-    /// with the same knot vector, and new control points Q0...Qn-1 derived from the
+    /// with the same knot vector except for its first and last knot, and new control points Q0...Qn-1 derived from the
     /// original control points Pi as:
     ///                 d
     /// Qi =    ----------------- (P[i+1]-P[i])
     ///         k[i+d+1] - k[i+1].
     /// with degree = curve_order - 1
-    /// TODO test & verify!
-    pub fn derivative(&self) -> BSpline<P, K, { C - 1 }, { D - 1 }> {
+    pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }> {
         let mut new_points: [P; C - 1] = [P::default(); C - 1];
         for (i, _) in self.control_points.iter().enumerate() {
             new_points[i] = (self.control_points[i + 1] - self.control_points[i])
@@ -372,8 +371,11 @@ where
                 break;
             }
         }
+        // the first and the last knot no longer influence the curve
+        let mut new_knots: [P::Scalar; K - 2] = [P::Scalar::default(); K - 2];
+        new_knots.copy_from_slice(&self.knots[1..K - 1]);
         BSpline {
-            knots: self.knots,
+            knots: new_knots,
             knot_kind: self.knot_kind,
             control_points: new_points,
         }
-- 
2.43.0


From b0154535733462a87ccc4aa5188727bccf8bb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 12/14] fix: BSpline::derivative divides by zero at fully
 repeated knots

---
 src/bspline.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 3d9fe48..c011723 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -365,8 +365,12 @@ where
     pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }> {
         let mut new_points: [P; C - 1] = [P::default(); C - 1];
         for (i, _) in self.control_points.iter().enumerate() {
-            new_points[i] = (self.control_points[i + 1] - self.control_points[i])
-                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).into());
+            let width: NativeFloat = (self.knots[i + D + 1] - self.knots[i + 1]).into();
+            // a point without support (zero width) has no influence and stays at the origin
+            if width > 0.0 {
+                new_points[i] = (self.control_points[i + 1] - self.control_points[i])
+                    * ((D) as NativeFloat / width);
+            }
             if i == self.control_points.len() - 2 {
                 break;
             }
-- 
2.43.0


From 9c1359dfbf3dc15b1e35b1555dbf4e86af44312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 13/14] fix: BSpline::arclen steps past the domain and ignores
 its length

---
 src/bspline.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index c011723..9a3f340 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -332,20 +332,23 @@ where
     where
         [(); D + 1]: Sized,
     {
-        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
         // evaluate the curve, t needs to be inside the knot domain!
         // we need to map [0...1] to kmin..kmax
         let (kmin, kmax) = self.knot_domain();
-        for t in 0..=nsteps {
+        let param = |step: usize| -> P::Scalar {
             let t = kmin
-                + (P::Scalar::from(t as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
+                + (P::Scalar::from(step as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
                     * (kmax - kmin);
-            let p1 = self.eval(t).unwrap_or_else(|_| {
+            // rounding must not carry the last step out of the domain
+            t.min(kmax)
+        };
+        for step in 0..nsteps {
+            let p1 = self.eval(param(step)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-            let p2 = self.eval(t + stepsize).unwrap_or_else(|_| {
+            let p2 = self.eval(param(step + 1)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-- 
2.43.0


From 1ddd8ce81fd3f1ce19d9c04f0313b600a6839c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 14/14] fix: BSpline::eval treats knot distances below machine
 epsilon as zero

---
 src/bspline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 9a3f340..958b806 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -277,10 +277,10 @@ where
                 let numerator = t - self.knots[j + k - D];
                 let denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];
                 let alpha: P::Scalar;
-                if numerator < P::Scalar::epsilon() {
+                if numerator <= 0.0.into() {
                     // we are at the start of a knot span (interpolation d[j-1] -> d[j])
                     alpha = 0.0.into();
-                } else if denominator.abs() < P::Scalar::epsilon() {
+                } else if denominator <= 0.0.into() {
                     // we are at then end of a knot span (interpolation d[j-1] -> d[j])
                     // this will lead to d[j] simply being copied to d[j]
                     alpha = 1.0.into();
-- 
2.43.0

