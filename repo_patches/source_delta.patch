From ce8488617220c20488ea65dea0820bfdf753e438 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 01/12] fix: LineSegment::split computed the split point in the
 wrong direction

The split point was start + (start - end) * t, which lies on the far side of
the start, so neither half was part of the segment.
---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index a752db3..d422de2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -25,7 +25,7 @@ where
 
     pub fn split(&self, t: P::Scalar) -> (Self, Self) {
         // compute the split point by interpolation
-        let ctrl_ab = self.start + (self.start - self.end) * t;
+        let ctrl_ab = self.start + (self.end - self.start) * t;
 
         (
             LineSegment {
-- 
2.43.0


From b341e4160ef9668207519e8626ed23919d5436e1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 02/12] fix: de Boor evaluation ignored the last control point
 of the span

D + 1 control points contribute to a point of a degree D B-spline, but only D
were copied; the last one was taken to be the origin.
---
 src/bspline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index ebb0c5d..311098c 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -259,7 +259,7 @@ where
 
         // Copy the control points needed for the first iteration
         // For a B-Spline of degree D, D+1 control points in the knot span contribute to the result
-        for j in 0..D {
+        for j in 0..=D {
             d[j] = self.control_points[j + k - D];
         }
 
-- 
2.43.0


From 50c6cc61d46e66ae513a9f370ddacece02e9776a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 03/12] fix: B-spline evaluation used the wrong knot span

- half-clamped B-splines reported a domain beyond knots[D]..knots[C], and
  evaluating there indexed outside of the control points
- the unclamped span search returned a span without checking that t is not
  before it
- the end of the domain yielded the last control point even if the knot
  vector is not clamped there; it belongs to the last span that is not empty
---
 src/bspline.rs | 66 +++++++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 311098c..d4dd84a 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -153,13 +153,13 @@ where
     }
 
     fn knot_domain_clamped_start(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[D], end at knots[knots.len() - 1]
-        (self.knots[D], self.knots[self.knots.len() - 1])
+        // Start from knots[D], end at knots[knots.len() - 1 - D] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     fn knot_domain_clamped_end(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[0], end at knots[knots.len() - 1 - D] (C = K - D - 1)
-        (self.knots[0], self.knots[self.knots.len() - 1 - D])
+        // Start from knots[D], end at knots[knots.len() - 1 - D] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     // Returns the knot domain for a clamped B-Spline
@@ -242,11 +242,6 @@ where
     where
         [(); D + 1]: Sized,
     {
-        // Special case when t equals the last knot value
-        if t == self.knots[self.control_points.len()] {
-            return Ok(self.control_points[self.control_points.len() - 1]);
-        }
-
         let k = self.knot_span_start_for_t(t);
 
         let k = match k {
@@ -316,27 +311,20 @@ where
     /// Return the index of the start of the knot span for given `t` for an unclamped B-Spline.
     /// This is the index of the first element that satisfies:
     ///     knots[i] <= t < knots[i+1]
-    /// Because the knot vector is non-decreasing, this function uses binary search.
     /// If no element greater than the value passed is found, the function returns None.
     fn knot_span_start_for_t_unclamped(&self, t: P::Scalar) -> Option<usize> {
-        let mut first = 0usize;
-        let mut step;
-        let mut count = self.knots.len() as isize;
-        while count > 0 {
-            step = count / 2;
-            let it = first + step as usize;
-            if t < self.knots[it + 1] || (it + 1 == self.knots.len() - 2 && t == self.knots[it + 1])
-            {
-                return Some(it);
-            }
-            if t >= self.knots[it] {
-                first = it + 1;
-                count -= step + 1;
-            } else {
-                count = step;
-            }
+        // the domain is knots[D]..knots[C], as for a clamped B-Spline
+        self.knot_span_start_for_t_clamped(t)
+    }
+
+    /// Return the index of the start of the last span of the domain that is not empty,
+    /// to which the end of the domain belongs.
+    fn knot_span_start_for_domain_end(&self) -> usize {
+        let mut k = self.control_points.len() - 1;
+        while k > D && self.knots[k] == self.knots[k + 1] {
+            k -= 1;
         }
-        None
+        k
     }
 
     /// Return the index of the start of the knot span for given `t` for a clamped B-Spline.
@@ -348,7 +336,7 @@ where
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // degree
         if t == self.knots[n + 1] {
-            return Some(n);
+            return Some(self.knot_span_start_for_domain_end());
         }
         let mut low = p;
         let mut high = n;
@@ -368,21 +356,20 @@ where
     fn knot_span_start_for_t_clamped_start(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // Degree of the spline
-        let m = self.knots.len() - 1; // Last index of the knot vector
 
-        // Special case when t equals the last knot value
-        if t == self.knots[m] {
-            return Some(n);
+        // Special case when t equals knots[n + 1]
+        if t == self.knots[n + 1] {
+            return Some(self.knot_span_start_for_domain_end());
         }
 
-        // Valid parameter domain is from knots[p] to knots[m]
-        if t < self.knots[p] || t > self.knots[m] {
+        // Valid parameter domain is from knots[p] to knots[n + 1]
+        if t < self.knots[p] || t > self.knots[n + 1] {
             return None;
         }
 
         // Initialize binary search indices
         let mut low = p;
-        let mut high = m - 1; // Since we compare t with knots[mid + 1], high should be m - 1
+        let mut high = n; // Since we compare t with knots[mid + 1], high should be n
 
         // Binary search to find the knot span
         while low <= high {
@@ -401,19 +388,20 @@ where
 
     fn knot_span_start_for_t_clamped_end(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
+        let p = D; // Degree of the spline
 
         // Special case when t equals knots[n + 1]
         if t == self.knots[n + 1] {
-            return Some(n);
+            return Some(self.knot_span_start_for_domain_end());
         }
 
-        // Valid parameter domain is from knots[0] to knots[n + 1]
-        if t < self.knots[0] || t > self.knots[n + 1] {
+        // Valid parameter domain is from knots[p] to knots[n + 1]
+        if t < self.knots[p] || t > self.knots[n + 1] {
             return None;
         }
 
         // Initialize binary search indices
-        let mut low = 0;
+        let mut low = p;
         let mut high = n; // Since we compare t with knots[mid + 1], high should be n
 
         // Binary search to find the knot span
-- 
2.43.0


From 81636e94654d066c9c04469de991d91536bf59f0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 04/12] fix: BSpline accepted not-a-number knots and parameters

Every comparison with NaN is false, so such knots passed the check for
decreasing knots and such a parameter passed the check for the domain.
---
 src/bspline.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index d4dd84a..0edc0e2 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -83,8 +83,8 @@ where
             Err(BSplineError::TooFewKnots)
         } else if knots.len() > control_points.len() + 1 + D {
             Err(BSplineError::TooManyKnots)
-        // if knots array is not non-decreasing
-        } else if knots.windows(2).any(|w| w[0] > w[1]) {
+        // if knots array is not non-decreasing (or not comparable, i.e. NaN)
+        } else if !knots.windows(2).all(|w| w[0] <= w[1]) {
             Err(BSplineError::DecreasingKnots)
         } else {
             let is_clamped_front = knots[0..=D]
@@ -118,8 +118,8 @@ where
     {
         let (knot_start, knot_end) = self.knot_domain();
 
-        // Ensure t is within the knot domain
-        if t < knot_start || t > knot_end {
+        // Ensure t is within the knot domain (and not NaN)
+        if t.is_nan() || t < knot_start || t > knot_end {
             return Err(BSplineError::KnotDomainViolation);
         }
 
-- 
2.43.0


From 39e8d5b5500b0cd284b1bb925ac749c3fb40d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 05/12] fix: B-spline evaluation is exact on short knot spans

de_boor_iterative compared numerator and denominator of alpha with the machine
epsilon, so on spans (or knot vectors) of a length near or below it the curve
point was replaced by an end of the span. Both are exact differences and only
need to be compared with zero.
---
 src/bspline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 0edc0e2..761be31 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -277,10 +277,10 @@ where
                 let numerator = t - self.knots[j + k - D];
                 let denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];
                 let alpha: P::Scalar;
-                if numerator < P::Scalar::epsilon() {
+                if numerator <= 0.0.into() {
                     // we are at the start of a knot span (interpolation d[j-1] -> d[j])
                     alpha = 0.0.into();
-                } else if denominator.abs() < P::Scalar::epsilon() {
+                } else if denominator <= 0.0.into() {
                     // we are at then end of a knot span (interpolation d[j-1] -> d[j])
                     // this will lead to d[j] simply being copied to d[j]
                     alpha = 1.0.into();
-- 
2.43.0


From 3d84a8ed06771798050de399d0cddd40e9e67f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 06/12] fix: LineSegment::distance_to_point measures to the end
 point beyond the end

The projection parameter stayed 0 where it should be 1, so that points beyond the
end were measured to the start point; and segments shorter than the square root of
epsilon were taken for points.
---
 src/line.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index d422de2..3462694 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -50,8 +50,8 @@ where
     /// Return the distance from the LineSegment to Point p by calculating the projection
     pub fn distance_to_point(&self, p: P) -> P::Scalar {
         let l2 = (self.end - self.start).squared_length();
-        // if start and endpoint are approx the same, return the distance to either
-        if l2 < P::Scalar::from(EPSILON) {
+        // if start and endpoint are the same, return the distance to either
+        if l2 == P::Scalar::from(0.0) {
             (self.start - p).squared_length().sqrt()
         } else {
             let v1 = p - self.start;
@@ -65,7 +65,7 @@ where
             //         .zip(v2.into_iter())
             //         .map(|(x1, x2)| x1 * x2)
             //         .sum::<P::Scalar>();
-            let mut t = P::Scalar::from(0.0);
+            let mut t = P::Scalar::from(1.0);
             if dot / l2 < P::Scalar::from(1.0) {
                 t = dot / l2;
             }
-- 
2.43.0


From 81a5fe670a982a2e0b50420d6738dbc6f59c7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 07/12] fix: distance_to_point of curves searches around the
 best sample and nowhere else

The fine pass left the parameter range 0..1 (and so found points that are not on
the curve), moved its own centre while searching, and started around t = 0.5 if the
start point was the best sample; the coarse pass left out the end point.
---
 src/bezier.rs           | 12 +++++++-----
 src/cubic_bezier.rs     | 12 +++++++-----
 src/quadratic_bezier.rs | 12 +++++++-----
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index c220691..9f80799 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -88,10 +88,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.control_points[0]).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -107,10 +107,12 @@ where
             // calculate next step value ( a 64th of a 64th from first step)
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            // calculate distance to candidate centered around tmin from before, without leaving the curve
+            let t = (tmin + t - 0.5 / (nsteps as NativeFloat))
+                .max(0.0.into())
+                .min(1.0.into());
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 98ebf19..4059900 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -192,10 +192,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -211,10 +211,12 @@ where
             // calculate next step value ( a 64th of a 64th from first step)
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            // calculate distance to candidate centered around tmin from before, without leaving the curve
+            let t = (tmin + t - 0.5 / (nsteps as NativeFloat))
+                .max(0.0.into())
+                .min(1.0.into());
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 1e46751..73fba7a 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -198,10 +198,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
             // calculate distance to candidate
@@ -215,10 +215,12 @@ where
         for i in 0..nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / ((nsteps*nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t*(nsteps as NativeFloat/ 2.0) );
+            // calculate distance to candidate centered around tmin from before, without leaving the curve
+            let t = (tmin + t - 0.5 / (nsteps as NativeFloat))
+                .max(0.0.into())
+                .min(1.0.into());
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
-- 
2.43.0


From d60e5d8eec0212e1b886ecdd0b3bb7a07c1dcc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 08/12] fix: arclen includes the first step, and on a B-spline
 stays inside of the domain

Curves left out the first of the steps. A B-spline's last steps went past the end of
its domain, where eval fails, and were measured to the origin instead; an evaluation
that fails (infinite knots) now shows as not-a-number.
---
 src/bezier.rs           |  2 +-
 src/bspline.rs          | 28 +++++++++++++++-------------
 src/cubic_bezier.rs     |  2 +-
 src/quadratic_bezier.rs |  2 +-
 4 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index 9f80799..b1ce65a 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -243,7 +243,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval(t);
             let p2 = self.eval(t + stepsize);
diff --git a/src/bspline.rs b/src/bspline.rs
index 761be31..57921d7 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -425,23 +425,25 @@ where
     where
         [(); D + 1]: Sized,
     {
-        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
         // evaluate the curve, t needs to be inside the knot domain!
         // we need to map [0...1] to kmin..kmax
         let (kmin, kmax) = self.knot_domain();
-        for t in 0..=nsteps {
-            let t = kmin
-                + (P::Scalar::from(t as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
-                    * (kmax - kmin);
-            let p1 = self.eval(t).unwrap_or_else(|_| {
-                // should never happen as we control the t values passed to eval()
-                P::default()
-            });
-            let p2 = self.eval(t + stepsize).unwrap_or_else(|_| {
-                // should never happen as we control the t values passed to eval()
-                P::default()
-            });
+        let point_at = |step: usize| {
+            let t = if step == nsteps {
+                kmax
+            } else {
+                kmin + (P::Scalar::from(step as NativeFloat)
+                    / P::Scalar::from(nsteps as NativeFloat))
+                    * (kmax - kmin)
+            };
+            // t lies inside of the domain, so this fails only if the numbers are not finite: neither is the length then
+            self.eval(t)
+                .unwrap_or_else(|_| P::default() * P::Scalar::nan())
+        };
+        for step in 0..nsteps {
+            let p1 = point_at(step);
+            let p2 = point_at(step + 1);
             arclen = arclen + (p1 - p2).squared_length().sqrt();
         }
         arclen
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 4059900..89bd24d 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -76,7 +76,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = 1.0 / (nsteps as NativeFloat);
         let mut arclen = P::Scalar::from(0.0);
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 73fba7a..b8c546a 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -148,7 +148,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
-- 
2.43.0


From 64207a6d4509699fe6263b1af2dc413036c25494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 09/12] fix: CubicBezier::dd: coefficient of the start point

It is -3t^2 + 6t - 3.
---
 src/cubic_bezier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 89bd24d..07b3930 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -137,7 +137,7 @@ where
     /// This function can cause out of bounds panic when axis is larger than dimension of P
     pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar {
         let t2 = t * t;
-        let c0 = t * -3.0 + t * 6.0 - 3.0;
+        let c0 = t2 * -3.0 + t * 6.0 - 3.0;
         let c1 = t2 * 9.0 - t * 12.0 + 3.0;
         let c2 = t2 * -9.0 + t * 6.0;
         let c3 = t2 * 3.0;
-- 
2.43.0


From 662a2fa8639fb00c7d863b2f5370a5e85960c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 10/12] fix: BSpline::derivative drops the first and last knot

A B-spline with C - 1 control points of degree D - 1 has K - 2 knots; with all K of
them the result violated the rule K = C + D + 1 and evaluated to wrong points. Control
points without influence (an empty span) no longer become infinite.
---
 src/bspline.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 57921d7..d1ca493 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -451,24 +451,29 @@ where
 
     /// Returns the derivative curve of self which has N-1 control points.
     /// The derivative of an nth degree B-Spline curve is an (n-1)th degree (d) B-Spline curve,
-    /// with the same knot vector, and new control points Q0...Qn-1 derived from the
-    /// original control points Pi as:
+    /// with the same knot vector except for its first and last knot, and new control points Q0...Qn-1
+    /// derived from the original control points Pi as:
     ///                 d
     /// Qi =    ----------------- (P[i+1]-P[i])
     ///         k[i+d+1] - k[i+1].
     /// with degree = curve_order - 1
-    /// TODO test & verify!
-    pub fn derivative(&self) -> BSpline<P, K, { C - 1 }, { D - 1 }> {
+    pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }> {
         let mut new_points: [P; C - 1] = [P::default(); C - 1];
         for (i, _) in self.control_points.iter().enumerate() {
-            new_points[i] = (self.control_points[i + 1] - self.control_points[i])
-                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).into());
+            let span = self.knots[i + D + 1] - self.knots[i + 1];
+            // a control point without any influence (an empty span) stays at the origin
+            if span != 0.0.into() {
+                new_points[i] = (self.control_points[i + 1] - self.control_points[i])
+                    * (P::Scalar::from(D as NativeFloat) / span);
+            }
             if i == self.control_points.len() - 2 {
                 break;
             }
         }
+        let mut knots = [self.knots[0]; K - 2];
+        knots.copy_from_slice(&self.knots[1..K - 1]);
         BSpline {
-            knots: self.knots,
+            knots,
             knot_kind: self.knot_kind,
             control_points: new_points,
         }
-- 
2.43.0


From dfe1f029d22a7343a80d5b63fce142848184ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 11/12] fix: bounding boxes of nearly linear or quadratic
 curves

The root finders behind them compared coefficients to an absolute epsilon, so that
small curves lost their extrema, and cancelled out for a small leading coefficient.
---
 src/line.rs             |  2 +-
 src/quadratic_bezier.rs | 19 +++++++++++--------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 3462694..b7986b2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -91,7 +91,7 @@ where
 
     pub(crate) fn root(&self, a: P::Scalar, b: P::Scalar) -> ArrayVec<[P::Scalar; 1]> {
         let mut r = ArrayVec::new();
-        if a.abs() < EPSILON.into() {
+        if a == P::Scalar::from(0.0) {
             return r;
         }
         r.push(-b / a);
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index b8c546a..0efef1a 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -169,9 +169,11 @@ where
     ) -> ArrayVec<[P::Scalar; 2]> {
         let mut result = ArrayVec::new();
 
+        let zero = P::Scalar::from(0.0);
+
         // check if can be handled below quadratic order
-        if a.abs() < EPSILON.into() {
-            if b.abs() < EPSILON.into() {
+        if a == zero {
+            if b == zero {
                 // no solutions
                 return result;
             }
@@ -181,12 +183,13 @@ where
         }
         // is quadratic equation
         let delta = b * b - a * c * 4.0;
-        if delta > 0.0.into() {
-            let sqrt_delta = delta.sqrt();
-            result.push((-b - sqrt_delta) / (a * 2.0));
-            result.push((-b + sqrt_delta) / (a * 2.0));
-        } else if delta.abs() < EPSILON.into() {
-            result.push(-b / (a * 2.0));
+        if delta >= zero {
+            // the sum of two numbers of the same sign, so that nothing cancels out if a is small
+            let q = (b + b.signum() * delta.sqrt()) / -2.0;
+            result.push(q / a);
+            if q != zero {
+                result.push(c / q);
+            }
         }
         result
     }
-- 
2.43.0


From 823004a33526bf15dc4610cec288ed8dc0dc9671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 12/12] fix: bounding boxes of very large and very small cubic
 curves

---
 src/quadratic_bezier.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 0efef1a..6540eea 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -181,7 +181,10 @@ where
             result.push(-c / b);
             return result;
         }
-        // is quadratic equation
+        // is quadratic equation: only the ratio of the coefficients matters, so scale them
+        // such that their products neither overflow nor underflow
+        let scale = a.abs().max(b.abs()).max(c.abs());
+        let (a, b, c) = (a / scale, b / scale, c / scale);
         let delta = b * b - a * c * 4.0;
         if delta >= zero {
             // the sum of two numbers of the same sign, so that nothing cancels out if a is small
-- 
2.43.0

