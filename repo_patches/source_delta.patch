From 7b1b8824a6503c2cefb1c16d513ebddfee17951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 01/21] fix: skip point-point-segment circle events that do not
 match the sweep order

The same circle could be queued twice, as (segment, point, point) and as
(point, point, segment). Only one of the two makes its middle arc vanish; when
the other one was processed first the diagram came out wrong, e.g. for points
(7,1), (6,2) and the segment (0,0)-(8,1).
---
 .../src/predicate/lazy_circle_formation.rs    | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index d616568..9a4df8d 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -251,6 +251,11 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
     tln!("pps unique_endpoints:{}", unique_endpoints);
 
     if unique_endpoints {
+        if segment_index != SiteIndex::Two
+            && !pps_in_sweep_order(point1, point2, site3, segment_index, &c_event)
+        {
+            return None;
+        }
         // site3.point0 -> c
         let v_3_c = (
             c_event.x() - cast::<I, f64>(site3.point0().x),
@@ -311,6 +316,49 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
     Some(c_event)
 }
 
+/// The beach line can hold the sites of a circle both as (segment, point, point) and as
+/// (point, point, segment), but only one of these is about to lose its middle arc.
+/// That is the one whose sites touch the circle in clockwise order, starting from the
+/// point of the circle that the sweep line reaches last.
+/// Returns false for the other one.
+fn pps_in_sweep_order<I: InputType, F: OutputType>(
+    point1: Point<I>,
+    point2: Point<I>,
+    site3: &VSE::SiteEvent<I, F>,
+    segment_index: SiteIndex,
+    c_event: &CircleEvent,
+) -> bool {
+    let (x, y) = (c_event.x(), c_event.y());
+    let radius = c_event.lower_x() - x;
+    let fuzz = 1e-12 + 1024.0 * f64::EPSILON * (x.abs() + y.abs()) / radius;
+    // clockwise pseudo angle, 0..4, measured from the direction of the sweep
+    let angle = |dx: f64, dy: f64| {
+        let p = dx / (dx.abs() + dy.abs());
+        if dy <= 0.0 {
+            1.0 - p
+        } else {
+            3.0 + p
+        }
+    };
+    let line_a = cast::<I, f64>(site3.y1()) - cast::<I, f64>(site3.y0());
+    let line_b = cast::<I, f64>(site3.x0()) - cast::<I, f64>(site3.x1());
+    let h = (line_a * (x - cast::<I, f64>(site3.x0())) + line_b * (y - cast::<I, f64>(site3.y0())))
+        / (line_a * line_a + line_b * line_b);
+    let a1 = angle(cast::<I, f64>(point1.x) - x, cast::<I, f64>(point1.y) - y);
+    let a2 = angle(cast::<I, f64>(point2.x) - x, cast::<I, f64>(point2.y) - y);
+    let a3 = angle(-h * line_a, -h * line_b);
+    let order = if segment_index == SiteIndex::One {
+        [a3, a1, a2]
+    } else {
+        [a1, a2, a3]
+    };
+    if !order.iter().all(|a| *a > fuzz && *a < 4.0 - fuzz) {
+        // too close to call
+        return true;
+    }
+    order[0] <= order[1] + fuzz && order[1] <= order[2] + fuzz
+}
+
 /// Lazy evaluation of point, segment, segment circle events
 #[allow(unused_parens)]
 pub(crate) fn pss<I: InputType, F: OutputType>(
-- 
2.43.0


From 36f3c3bd96dd588ae1dc6a64287055bd72b409fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 02/21] fix: scale the tolerance of the point-point-segment
 range check

The center of the circle is only accurate to a number of ULPs of its own
magnitude, so a foot point exactly at an endpoint could be rejected, e.g. for
points (2,2), (0,0), (7,-3) and the segment (0,1)-(4,-2).
---
 .../src/predicate/lazy_circle_formation.rs               | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index 9a4df8d..134daf0 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -270,9 +270,12 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
         let dot = (v_3_c.0 * v_3.0 + v_3_c.1 * v_3.1) / (v_3.0 * v_3.0 + v_3.1 * v_3.1);
         tln!("pps dot:{:.12}", dot);
 
-        // allow the dot to be [0..1] + some ULP fuzz
-        let rv =
-            (-0.0..=1.0).contains(&dot) || approx::ulps_eq!(0.0, dot) || approx::ulps_eq!(1.0, dot);
+        // allow the dot to be [0..1], plus what the rounding of the center can account for
+        let fuzz = ULPSX2 as f64
+            * f64::EPSILON
+            * (c_event.x().abs() + c_event.y().abs() + v_3_c.0.abs() + v_3_c.1.abs())
+            / (v_3.0 * v_3.0 + v_3.1 * v_3.1).sqrt();
+        let rv = (-fuzz..=1.0 + fuzz).contains(&dot);
 
         #[cfg(feature = "ce_corruption_check")]
         if !rv {
-- 
2.43.0


From 6fd10baea1ebb345164b6a8cf71a8a2b490ee5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 03/21] fix: do the cross product of coordinate differences in
 128 bits

The products overflowed an i64 (the C++ original uses an u64) once the
coordinates spanned more than about half of the i32 range: a panic in debug
builds and a wrong orientation in release builds.
---
 workspace/boostvoronoi_core/src/predicate.rs | 23 ++++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index e260225..f219e93 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -56,12 +56,11 @@ pub(crate) fn is_vertical<I: InputType>(point1: Point<I>, point2: Point<I>) -> b
 /// with epsilon relative error equal to 1EPS.
 #[inline]
 fn robust_cross_product<I: InputType, F: OutputType>(s_a1: I, s_b1: I, s_a2: I, s_b2: I) -> F {
-    // Why can't *all* integers implement is_negative()? E.g u64 would just always return false.
-    // It would make it easier to implement generic code
-    let u_a1 = if s_a1 < I::zero() { -s_a1 } else { s_a1 };
-    let u_b1 = if s_b1 < I::zero() { -s_b1 } else { s_b1 };
-    let u_a2 = if s_a2 < I::zero() { -s_a2 } else { s_a2 };
-    let u_b2 = if s_b2 < I::zero() { -s_b2 } else { s_b2 };
+    // The products of 33 bit differences, and their sum, does not fit inside an i64.
+    let u_a1 = cast::<I, i128>(s_a1).abs();
+    let u_b1 = cast::<I, i128>(s_b1).abs();
+    let u_a2 = cast::<I, i128>(s_a2).abs();
+    let u_b2 = cast::<I, i128>(s_b2).abs();
 
     let l = u_a1 * u_b2;
     let r = u_b1 * u_a2;
@@ -69,21 +68,21 @@ fn robust_cross_product<I: InputType, F: OutputType>(s_a1: I, s_b1: I, s_a2: I,
     if (s_a1 < I::zero()) ^ (s_b2 < I::zero()) {
         return if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
             if l > r {
-                -cast::<I, F>(l - r)
+                -cast::<i128, F>(l - r)
             } else {
-                cast::<I, F>(r - l)
+                cast::<i128, F>(r - l)
             }
         } else {
-            -cast::<I, F>(l + r)
+            -cast::<i128, F>(l + r)
         };
     }
     if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-        return cast::<I, F>(l + r);
+        return cast::<i128, F>(l + r);
     }
     if l < r {
-        -cast::<I, F>(r - l)
+        -cast::<i128, F>(r - l)
     } else {
-        cast::<I, F>(l - r)
+        cast::<i128, F>(l - r)
     }
 }
 
-- 
2.43.0


From 41ab2f53dac3acb32ffe0297f6c085b3206724cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 04/21] fix: color exterior edges without recursion

---
 workspace/boostvoronoi_core/src/diagram.rs | 58 +++++++++++-----------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 081fc40..6e5d840 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -792,36 +792,38 @@ impl<F: OutputType> Diagram<F> {
 
     /// Mark all edges connected to an 'infinite' edge via primary edges as 'external'
     /// You should only call this on edges that you know are infinite. i.e. lacks one or two vertexes
+    /// This does not use recursion, the number of connected edges is only limited by the input size.
     fn recurse_color_exterior(&self, edge_id: Option<EdgeIndex>, external_color: ColorType) {
-        if edge_id.is_none() || (self.edge_get_color_(edge_id).unwrap() & external_color) != 0 {
-            // This edge has already been colored, break recursion
-            return;
-        }
-        // Color edge as EXTERNAL
-        self.edge_or_color_(edge_id, external_color);
+        let mut stack = vec![edge_id];
+        while let Some(edge_id) = stack.pop() {
+            if edge_id.is_none() || (self.edge_get_color_(edge_id).unwrap() & external_color) != 0 {
+                // This edge has already been colored, go no further
+                continue;
+            }
+            // Color edge as EXTERNAL
+            self.edge_or_color_(edge_id, external_color);
 
-        let v1 = self.edge_get_vertex1_(edge_id);
-        if self.edge_get_vertex0_(edge_id).is_some() && v1.is_none() {
-            // this edge leads to nowhere, break recursion
-            return;
-        }
-        // Color twin edge as EXTERNAL
-        self.edge_or_color_(self.edge_get_twin_(edge_id), external_color);
-        if v1.is_none()
-            || self.vertex_is_site_point_(v1).unwrap_or(true)
-            || !self
-                .get_edge_(edge_id)
-                .map_or(false, |x| x.get().is_primary())
-        {
-            // stop recursion if this edge does not have a vertex1 (e.g is infinite)
-            // or if this edge isn't a primary edge.
-            return;
-        }
-        self.vertex_set_color_(v1, external_color);
-        let incident_edge = self.vertex_get_incident_edge(v1);
-        for e in self.edge_rot_next_iterator(incident_edge) {
-            // mark all surrounding edges as EXTERNAL, but only recurse on primary edges
-            self.recurse_color_exterior(Some(e), external_color);
+            let v1 = self.edge_get_vertex1_(edge_id);
+            if self.edge_get_vertex0_(edge_id).is_some() && v1.is_none() {
+                // this edge leads to nowhere, go no further
+                continue;
+            }
+            // Color twin edge as EXTERNAL
+            self.edge_or_color_(self.edge_get_twin_(edge_id), external_color);
+            if v1.is_none()
+                || self.vertex_is_site_point_(v1).unwrap_or(true)
+                || !self
+                    .get_edge_(edge_id)
+                    .map_or(false, |x| x.get().is_primary())
+            {
+                // go no further if this edge does not have a vertex1 (e.g is infinite)
+                // or if this edge isn't a primary edge.
+                continue;
+            }
+            self.vertex_set_color_(v1, external_color);
+            let incident_edge = self.vertex_get_incident_edge(v1);
+            // mark all surrounding edges as EXTERNAL, but only continue on primary edges
+            stack.extend(self.edge_rot_next_iterator(incident_edge).map(Some));
         }
     }
 
-- 
2.43.0


From 1d700de7706d947853b6f692866025bd7acbecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 05/21] fix: report a failing reader instead of reading on
 forever

---
 workspace/boostvoronoi_core/src/file_reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/file_reader.rs b/workspace/boostvoronoi_core/src/file_reader.rs
index 4c555cb..55270b8 100644
--- a/workspace/boostvoronoi_core/src/file_reader.rs
+++ b/workspace/boostvoronoi_core/src/file_reader.rs
@@ -123,6 +123,10 @@ pub fn read_boost_input_buffer<I: crate::InputType, F: std::io::Read>(
 
     // Read the file line by line using the lines() iterator from std::io::BufRead.
     for (index, line) in reader.lines().enumerate() {
+        if let Err(err) = line {
+            // a reader may keep on failing forever
+            return Err(err.into());
+        }
         if let Ok(line) = line {
             //println!("got {:?}, state:{:?}", line, state);
             if let Some(data) = line_to_data::<I>(&line) {
-- 
2.43.0


From af61d99ed7a80642698972eed8520a1001352ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 06/21] fix: report edges that do not exist as errors instead
 of panicking

---
 workspace/boostvoronoi_core/src/diagram.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 6e5d840..b7b8a76 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1086,16 +1086,7 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     pub(crate) fn edge_get_(&self, edge_id: Option<EdgeIndex>) -> Option<&EdgeType> {
-        let rv = self.edges_.get(edge_id?.0);
-        debug_assert!({
-            if rv.is_none() {
-                dbg!(edge_id.unwrap().0);
-                // todo: remove this panic and raise error?
-                panic!();
-            };
-            true
-        });
-        rv
+        self.edges_.get(edge_id?.0)
     }
 
     /// Overwrites the content of dest with the content of source.
@@ -1249,7 +1240,7 @@ impl<F: OutputType> Diagram<F> {
     /// Returns false if the edge is infinite (ray, line).
     #[inline]
     pub(crate) fn edge_is_finite_(&self, edge_id: Option<EdgeIndex>) -> Option<bool> {
-        let _ = edge_id?;
+        let _ = self.edge_get_(edge_id)?;
         Some(self.edge_get_vertex0_(edge_id).is_some() && self.edge_get_vertex1_(edge_id).is_some())
     }
 
-- 
2.43.0


From c50b8c05f8a2d79c81f8dca882520588a2876263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 07/21] fix: coloring exterior edges with a color that can not
 be stored never ended

---
 workspace/boostvoronoi_core/src/diagram.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index b7b8a76..da19fa3 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -782,6 +782,10 @@ impl<F: OutputType> Diagram<F> {
     /// Iterates over all edges, colors each edge as exterior if it has an unbroken primary edge
     /// link connection to an infinite edge.
     pub fn color_exterior_edges(&self, external_color: ColorType) {
+        if external_color << ColorBits::RESERVED_BITS__SHIFT.0 == 0 {
+            // nothing of this color can be stored, so no edge would ever be seen as colored
+            return;
+        }
         for it in self.edges().iter() {
             let edge_id = Some(it.get().id());
             if !self.edge_is_finite_(edge_id).unwrap() {
-- 
2.43.0


From 4be393ab75f33f74f1fcde4b16bada60b83ac110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 08/21] fix: dividing a curved edge lost points or never ended
 at the limit of precision

---
 workspace/boostvoronoi_core/src/visual_utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/visual_utils.rs b/workspace/boostvoronoi_core/src/visual_utils.rs
index 69cd74b..3e53b24 100644
--- a/workspace/boostvoronoi_core/src/visual_utils.rs
+++ b/workspace/boostvoronoi_core/src/visual_utils.rs
@@ -105,10 +105,10 @@ impl VoronoiVisualUtils {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist.is_nan() {
-                break;
-            }
-            if dist <= max_dist_transformed {
+            // Rounding can move the furthest point out of the remaining arc, then there is
+            // nothing left to divide (dist is NaN if the arc has no length).
+            let divisible = (mid_x > cur_x && mid_x < new_x) || (mid_x < cur_x && mid_x > new_x);
+            if dist <= max_dist_transformed || dist.is_nan() || !divisible {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
-- 
2.43.0


From 2cc6aaa54d5297630c8522de133982ee011d5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 09/21] fix: implement Zero::is_zero of ExtendedInt instead of
 panicking

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index 8299d28..bbd7c8e 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -92,7 +92,7 @@ impl Zero for ExtendedInt {
     }
     #[inline]
     fn is_zero(&self) -> bool {
-        unimplemented!()
+        self.count_ == 0
     }
 }
 
-- 
2.43.0


From 442630066abf2e28373476efdba4f55232de428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 10/21] fix: conversion of i64::MIN to ExtendedInt overflowed

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index bbd7c8e..bc7e83e 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -59,7 +59,7 @@ impl<I: InputType> From<I> for ExtendedInt {
                 }
             }
             cmp::Ordering::Less => {
-                let mut c: u64 = (-that) as u64;
+                let mut c: u64 = that.unsigned_abs();
                 rv.chunks_.push(Wrapping((c & 0xFFFFFFFF) as u32));
                 c >>= 32;
                 if c != 0 {
-- 
2.43.0


From 91652b87beeb04385b91e918265ea9f44e8c6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 11/21] fix: remove every leading zero word of an ExtendedInt
 difference

Only one was removed, so a difference more than one word shorter than its
operands lost its precision, or all of its value, in p() and d().
---
 workspace/boostvoronoi_ext/src/extended_int.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index bc7e83e..0a1bd75 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -269,7 +269,6 @@ impl ExtendedInt {
             }
             sz2 = sz1;
         }
-        self.count_ = (sz1 - 1) as i32;
         let mut flag = false;
 
         for _i in self.chunks_.len()..sz1 {
@@ -284,15 +283,11 @@ impl ExtendedInt {
             self.chunks_[i] = c1_i - if flag { Wrapping(1) } else { Wrapping(0) };
             flag = (c1_i.0 == 0) && flag;
         }
-        if self.chunks_[self.count_ as usize].0 != 0 {
-            self.count_ += 1;
-            if (self.count_ as usize) > self.chunks_.len() {
-                self.chunks_.push(Wrapping(0));
-            }
-        }
-        if (self.count_ as usize) < self.chunks_.len() {
+        // a difference can be any number of words shorter than its operands
+        while self.chunks_.last().map_or(false, |c| c.0 == 0) {
             let _ = self.chunks_.pop();
         }
+        self.count_ = self.chunks_.len() as i32;
     }
 
     fn mul_other(&mut self, e1: &Self, e2: &Self) {
-- 
2.43.0


From 53ccdf7256bc80862ec121b0db2554ae123d34d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 12/21] fix: adding zero to, or subtracting it from, a tiny
 extended float gave zero

The exponent was compared before the value was known not to be zero.
---
 .../boostvoronoi_ext/src/extended_exp_fpt.rs  | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index 3e29d9e..7349e08 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -273,10 +273,17 @@ impl ops::Add for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 3000000000_f64);
     /// ```
     fn add(self, that: Self) -> Self {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+        // the exponent of a zero says nothing
+        if self.val_ == 0.0 {
             return that;
         }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+        if that.val_ == 0.0 {
+            return self;
+        }
+        if that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+            return that;
+        }
+        if self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
             return self;
         }
         if self.exp_ >= that.exp_ {
@@ -313,10 +320,17 @@ impl ops::Sub for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub(self, that: Self) -> Self {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+        // the exponent of a zero says nothing
+        if self.val_ == 0.0 {
             return Self::new(-that.val_, that.exp_);
         }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+        if that.val_ == 0.0 {
+            return self;
+        }
+        if that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+            return Self::new(-that.val_, that.exp_);
+        }
+        if self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
             return self;
         }
         if self.exp_ >= that.exp_ {
-- 
2.43.0


From 7c3a74a3c39591678ab98263e6ce68bb6ecf6fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 13/21] fix: assigning operators of the extended float differ
 from the others

Adding to or subtracting from zero doubled the value, and the results were not
normalised, which later sums rely on.
---
 .../boostvoronoi_ext/src/extended_exp_fpt.rs  | 45 ++-----------------
 1 file changed, 4 insertions(+), 41 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index 7349e08..1c57f99 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -468,25 +468,7 @@ impl ops::AddAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 3000000000_f64);
     /// ```
     fn add_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            // do nothing
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) + that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp;
-        }
+        *self = *self + that;
     }
 }
 
@@ -511,24 +493,7 @@ impl ops::SubAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = -that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) - that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(-that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp_;
-        }
+        *self = *self - that;
     }
 }
 
@@ -551,8 +516,7 @@ impl ops::MulAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64*2000000000_f64);
     /// ```
     fn mul_assign(&mut self, that: Self) {
-        self.val_ *= that.val_;
-        self.exp_ += that.exp_;
+        *self = *self * that;
     }
 }
 
@@ -575,8 +539,7 @@ impl ops::DivAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), -1f64);
     /// ```
     fn div_assign(&mut self, that: Self) {
-        self.val_ /= that.val_;
-        self.exp_ -= that.exp_;
+        *self = *self / that;
     }
 }
 
-- 
2.43.0


From a3249b940cea49812b4c5e7ce8c769d4b9fdd00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 14/21] fix: RobustDif::from a negative float had the wrong
 sign

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index b96162c..4c5d72c 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -454,7 +454,7 @@ impl From<f64> for RobustDif {
         } else {
             Self {
                 positive_sum_: RobustFpt::default(),
-                negative_sum_: RobustFpt::from(value),
+                negative_sum_: RobustFpt::from(-value),
             }
         }
     }
-- 
2.43.0


From 471cb63adefa9dedc4585b157f2ea27e5aa101a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 15/21] fix: RobustDif times a negative float had the wrong
 sign

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 4c5d72c..8b5bd04 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -634,18 +634,7 @@ impl ops::Mul<f64> for RobustDif {
     type Output = RobustDif;
 
     fn mul(self, rhs_: f64) -> Self {
-        let rhs = RobustFpt::from(rhs_);
-        if is_pos_f(rhs_) {
-            Self {
-                positive_sum_: self.positive_sum_ * rhs,
-                negative_sum_: self.negative_sum_ * rhs,
-            }
-        } else {
-            Self {
-                positive_sum_: self.negative_sum_ * rhs,
-                negative_sum_: self.positive_sum_ * rhs,
-            }
-        }
+        self * RobustFpt::from(rhs_)
     }
 }
 
-- 
2.43.0


From c31f2e65c1b77affd042df628d510dff72ac1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 16/21] fix: product of two RobustDif left out the cross terms

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 8b5bd04..3a68c0e 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -624,8 +624,10 @@ impl ops::Mul<RobustDif> for RobustDif {
 
     fn mul(self, rhs: RobustDif) -> Self {
         Self {
-            positive_sum_: self.positive_sum_ * rhs.positive_sum_,
-            negative_sum_: self.negative_sum_ * rhs.negative_sum_,
+            positive_sum_: self.positive_sum_ * rhs.positive_sum_
+                + self.negative_sum_ * rhs.negative_sum_,
+            negative_sum_: self.positive_sum_ * rhs.negative_sum_
+                + self.negative_sum_ * rhs.positive_sum_,
         }
     }
 }
@@ -681,8 +683,7 @@ impl ops::MulAssign<RobustFpt> for RobustDif {
 
 impl ops::MulAssign<RobustDif> for RobustDif {
     fn mul_assign(&mut self, rhs: RobustDif) {
-        self.positive_sum_ = self.positive_sum_ * rhs.positive_sum_;
-        self.negative_sum_ = self.negative_sum_ * rhs.negative_sum_;
+        *self = *self * rhs;
     }
 }
 
-- 
2.43.0


From 09a57c5f848206f67b1fc84ceb106821c9ff9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 17/21] fix: RobustDif divided by a negative value had negative
 sums

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 3a68c0e..8f6fbc0 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -697,7 +697,11 @@ impl fmt::Debug for RobustDif {
 }
 
 impl ops::DivAssign<RobustFpt> for RobustDif {
-    fn div_assign(&mut self, rhs: RobustFpt) {
+    fn div_assign(&mut self, mut rhs: RobustFpt) {
+        if rhs.is_neg() {
+            rhs = -rhs;
+            self.swap();
+        }
         self.positive_sum_ /= rhs;
         self.negative_sum_ /= rhs;
     }
-- 
2.43.0


From 12f1f7e8021f7d43e4826b7e9e67c0e07f2f3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 18/21] hook: access to circle events and number expressions
 under cfg(verif_hooks)

---
 workspace/boostvoronoi_core/src/lib.rs        |  2 +
 workspace/boostvoronoi_core/src/predicate.rs  |  2 +
 .../boostvoronoi_core/src/verif_hooks.rs      | 90 +++++++++++++++++++
 3 files changed, 94 insertions(+)
 create mode 100644 workspace/boostvoronoi_core/src/verif_hooks.rs

diff --git a/workspace/boostvoronoi_core/src/lib.rs b/workspace/boostvoronoi_core/src/lib.rs
index fe13c8f..ae1447c 100644
--- a/workspace/boostvoronoi_core/src/lib.rs
+++ b/workspace/boostvoronoi_core/src/lib.rs
@@ -44,6 +44,8 @@ pub(crate) mod predicate;
 pub(crate) mod robust_sqrt_expr;
 mod site_event;
 pub mod sync_diagram;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 pub mod visual_utils;
 
 /// A feature gated print(), will only be active when the feature "console_debug" is selected.
diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index f219e93..b01a6f1 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -821,6 +821,8 @@ pub(crate) mod circle_formation_predicate {
                 return None;
             }
         }
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::circle([site1, site2, site3], circle.as_ref());
         #[cfg(all(feature = "geo", feature = "ce_corruption_check"))]
         if let Some(circle) = circle.as_ref() {
             circle_existence::validate_circle_formation::<I, F>(site1, site2, site3, circle);
diff --git a/workspace/boostvoronoi_core/src/verif_hooks.rs b/workspace/boostvoronoi_core/src/verif_hooks.rs
new file mode 100644
index 0000000..0604d88
--- /dev/null
+++ b/workspace/boostvoronoi_core/src/verif_hooks.rs
@@ -0,0 +1,90 @@
+//! Access to internal decisions, for verification. Compiled only with `--cfg verif_hooks`.
+use crate::circle_event::CircleEvent;
+use crate::geometry::Point;
+use crate::predicate::orientation_predicate;
+use crate::site_event::SiteEvent;
+use crate::{cast, robust_sqrt_expr, InputType, OutputType};
+use boostvoronoi_ext::extended_exp_fpt::ExtendedExponentFpt;
+use boostvoronoi_ext::extended_int::ExtendedInt;
+use std::cell::RefCell;
+
+/// A site as the predicates see it.
+#[derive(Copy, Clone, Debug, PartialEq)]
+pub struct Site {
+    pub ends: [[i64; 2]; 2],
+    pub segment: bool,
+    pub inverse: bool,
+    pub sorted: usize,
+}
+
+/// A decision made while building.
+#[derive(Clone, Debug, PartialEq)]
+pub enum Record {
+    /// the circle formed for three neighbouring sites: x, y and lower x
+    Circle([Site; 3], [f64; 3]),
+}
+
+thread_local! {
+    static LOG: RefCell<Option<Vec<Record>>> = const { RefCell::new(None) };
+}
+
+/// Starts recording on this thread.
+pub fn start() {
+    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
+}
+
+/// Stops recording on this thread and returns what was recorded.
+pub fn stop() -> Vec<Record> {
+    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
+}
+
+fn point<I: InputType>(p: Point<I>) -> [i64; 2] {
+    [cast(p.x), cast(p.y)]
+}
+
+fn site<I: InputType, F: OutputType>(s: &SiteEvent<I, F>) -> Site {
+    Site {
+        ends: [point(s.point0()), point(s.point1())],
+        segment: s.is_segment(),
+        inverse: s.is_inverse(),
+        sorted: s.sorted_index(),
+    }
+}
+
+pub(crate) fn circle<I: InputType, F: OutputType>(
+    s: [&SiteEvent<I, F>; 3],
+    c: Option<&CircleEvent>,
+) {
+    LOG.with(|l| {
+        if let (Some(log), Some(c)) = (l.borrow_mut().as_mut(), c) {
+            log.push(Record::Circle(s.map(site), [c.x(), c.y(), c.lower_x()]));
+        }
+    })
+}
+
+/// 1 to 4: sums of that many roots; 5 and 6: the two special forms for a point and two segments.
+pub fn sqrt_expr(form: u8, a: &[ExtendedInt], b: &[ExtendedInt]) -> ExtendedExponentFpt<f64> {
+    match form {
+        1 => robust_sqrt_expr::eval1(a, b),
+        2 => robust_sqrt_expr::eval2(a, b),
+        3 => robust_sqrt_expr::eval3(a, b),
+        4 => robust_sqrt_expr::eval4(a, b),
+        5 => robust_sqrt_expr::sqrt_expr_evaluator_pss3(a, b),
+        _ => robust_sqrt_expr::sqrt_expr_evaluator_pss4(a, b),
+    }
+}
+
+/// Left (1), collinear (0) or right (-1).
+pub fn orientation(p: [[i64; 2]; 3]) -> i8 {
+    let q = p.map(|p| Point { x: p[0], y: p[1] });
+    match orientation_predicate::eval_p::<i64>(q[0], q[1], q[2]) {
+        orientation_predicate::Orientation::Left => 1,
+        orientation_predicate::Orientation::Collinear => 0,
+        orientation_predicate::Orientation::Right => -1,
+    }
+}
+
+/// Comparison of floats that are equal when they are at most this many units in the last place apart.
+pub fn ulp_comparison(a: f64, b: f64, ulps: u64) -> std::cmp::Ordering {
+    crate::ctypes::ulp_comparison(a, b, ulps)
+}
-- 
2.43.0


From b0731fd609a8028ea95d94db668d102faffda3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 19/21] fix: no circle passes two points on the line of a
 segment it touches

---
 .../boostvoronoi_core/src/predicate/circle_existence.rs    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/circle_existence.rs b/workspace/boostvoronoi_core/src/predicate/circle_existence.rs
index 2a21d3f..be4e26e 100644
--- a/workspace/boostvoronoi_core/src/predicate/circle_existence.rs
+++ b/workspace/boostvoronoi_core/src/predicate/circle_existence.rs
@@ -96,7 +96,12 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
             return false;
         }
     } else {
-        return (site3.point0() != point1) || (site3.point1() != point2);
+        // no circle passes two points on the line it is tangent to
+        let on_line = |p: Point<I>| {
+            orientation_predicate::eval_p::<I>(site3.point0(), site3.point1(), p)
+                == Orientation::Collinear
+        };
+        return !(on_line(point1) && on_line(point2));
     }
     true
 }
-- 
2.43.0


From 098e826e69d73d12080732c675a9e726c9863aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 20/21] fix: insert above the top arc of the beach line where
 the search ended

---
 workspace/boostvoronoi_core/src/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/builder.rs b/workspace/boostvoronoi_core/src/builder.rs
index 31647c1..db39260 100644
--- a/workspace/boostvoronoi_core/src/builder.rs
+++ b/workspace/boostvoronoi_core/src/builder.rs
@@ -490,12 +490,12 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
                 let site_arc = *(left_it.get_k()?.right_site());
 
                 // todo: insert_new_arc should return a new pointer
-                // Insert new nodes into the beach line. Update the output.
+                // Insert new nodes next to the last one, where they were looked for. Update the output.
                 let right_it_idx = self.insert_new_arc(
                     site_arc,
                     site_arc,
                     site_event,
-                    right_it.current(),
+                    left_it.current(),
                     output,
                 )?;
                 right_it = self.beach_line_.get_pointer(right_it_idx)?;
-- 
2.43.0


From 32b425bb0af95881affab8fd491cffb625d29451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:27 +0000
Subject: [PATCH 21/21] fix: insert the temporary bisector of a segment where
 its arc was found

---
 workspace/boostvoronoi_core/src/beach_line.rs | 12 ------------
 workspace/boostvoronoi_core/src/builder.rs    |  2 +-
 2 files changed, 1 insertion(+), 13 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/beach_line.rs b/workspace/boostvoronoi_core/src/beach_line.rs
index f4f6183..7e6c4f1 100644
--- a/workspace/boostvoronoi_core/src/beach_line.rs
+++ b/workspace/boostvoronoi_core/src/beach_line.rs
@@ -188,18 +188,6 @@ impl<I: InputType, F: OutputType> BeachLine<I, F> {
         Ok((key, node_index))
     }
 
-    /// updates the node_index of the key, inserts it into the list and
-    /// returns a copy of it
-    #[cfg(not(feature = "console_debug"))]
-    pub(crate) fn insert_2(
-        &mut self,
-        key: BeachLineNodeKey<I, F>,
-    ) -> Result<(BeachLineNodeKey<I, F>, BeachLineIndex), BvError> {
-        let node = Rc::new(Cell::new(None));
-        let node_index = BeachLineIndex(self.beach_line_.borrow_mut().ordered_insert(key, node)?);
-        Ok((key, node_index))
-    }
-
     /// Clear the beach line list
     pub fn clear(&mut self) {
         #[cfg(feature = "console_debug")]
diff --git a/workspace/boostvoronoi_core/src/builder.rs b/workspace/boostvoronoi_core/src/builder.rs
index db39260..e058cbc 100644
--- a/workspace/boostvoronoi_core/src/builder.rs
+++ b/workspace/boostvoronoi_core/src/builder.rs
@@ -894,7 +894,7 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
             #[cfg(feature = "console_debug")]
             let (_, index) = self.beach_line_.insert_2(new_node, &self.circle_events_)?;
             #[cfg(not(feature = "console_debug"))]
-            let (_, index) = self.beach_line_.insert_2(new_node)?;
+            let (_, index) = self.beach_line_.insert(position, new_node, None)?;
 
             #[cfg(feature = "console_debug")]
             {
-- 
2.43.0

