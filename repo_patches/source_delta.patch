From 1056aada2fe11d19c547d1e987d20a5f3194191f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 01/16] fix: look past exiting segments when rescanning for
 intersections after a removal

---
 src/sweep/sweep_line.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index ac7baa7..535ff56 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -526,9 +526,16 @@ impl<'segs> Sweeper<'segs> {
     }
 
     fn scan_for_removal(&mut self, pos: usize) {
-        if pos > 0 {
-            self.intersection_scan_right(pos - 1);
-            self.intersection_scan_left(pos - 1);
+        // Segments that end at this height are still present in the sweep line,
+        // but they don't participate in intersection scans. If we were to start
+        // the scan at one of them, we'd miss the newly-adjacent segments on
+        // either side of it.
+        let prev = (0..pos)
+            .rev()
+            .find(|&i| self.segments[self.line.seg(i)].end().y != self.y);
+        if let Some(prev) = prev {
+            self.intersection_scan_right(prev);
+            self.intersection_scan_left(prev);
         }
     }
 
-- 
2.43.0


From d4a2ab01292fa493b224f85e5d45a2886a1f3ef8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 02/16] fix: only merge monotonic pieces as far as the
 unperturbed part of the output segment goes

---
 src/topology.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index f0d91f7..3de7062 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1078,7 +1078,16 @@ impl<W: WindingNumber> Topology<W> {
             seg.is_first_half() == self.segments.positively_oriented(orig_idx);
 
         let start_y = self.point(seg).y;
-        let end_y = self.point(seg.other_half()).y;
+        // If the output segment was perturbed somewhere, only the copied part can
+        // be merged. In that case the merge can only go as far as the copied part does.
+        let copied_end = if seg.is_first_half() {
+            pos.path.elements().get(1)
+        } else {
+            pos.path.elements().iter().rev().nth(1)
+        };
+        let end_y = copied_end
+            .and_then(|el| el.end_point())
+            .map_or(self.point(seg.other_half()).y, |p| p.y);
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
-- 
2.43.0


From 5745ba8900c8fb5dc950dcaf689a337fa0e8f80e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 03/16] fix: tell outer loops from holes when one walk goes
 around several contours

---
 src/topology.rs | 48 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index 3de7062..7f067c8 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1225,6 +1225,35 @@ impl<W: WindingNumber> Topology<W> {
             let mut segs = Vec::new();
             last_visit[self.point_idx[start]] = Some(0);
 
+            // The walk might go around several loops (see the picture above). The one that
+            // contains the segment we started from is the one whose relationship to the
+            // existing contours we worked out by scanning left. All of the other ones bound the
+            // same piece of the set from the inside: they're the children of our first loop if
+            // that's an outer contour, and its siblings if it's an inner one.
+            let mut finish_loop = |ret: &mut Contours, segs: &[HalfOutputSegIdx]| {
+                let path = self.segs_to_path(segs, &positions);
+                let loop_contour_idx = if segs.iter().any(|s| s.idx == idx) {
+                    ret.contours[contour_idx.0].path = path;
+                    contour_idx
+                } else {
+                    let first = &ret.contours[contour_idx.0];
+                    let parent = if first.outer {
+                        Some(contour_idx)
+                    } else {
+                        first.parent
+                    };
+                    ret.contours.push(Contour {
+                        path,
+                        parent,
+                        outer: false,
+                    });
+                    ContourIdx(ret.contours.len() - 1)
+                };
+                for &seg in segs {
+                    seg_contour[seg.idx.0] = Some(loop_contour_idx);
+                }
+            };
+
             debug_assert!(inside(self.winding_counter_clockwise(start)));
             loop {
                 visited[next.idx.0] = true;
@@ -1255,21 +1284,13 @@ impl<W: WindingNumber> Topology<W> {
                     // contours visited `p`.
                     .filter(|&idx| idx < segs.len() && self.point_idx[segs[idx].other_half()] == p);
                 if let Some(seg_idx) = last_visit_idx {
-                    // We repeated a point, meaning that we've found an inner contour. Extract
-                    // it and remove it from the current contour.
+                    // We repeated a point, meaning that we've gone all the way around a loop.
+                    // Extract it and remove it from the current contour.
 
                     // seg_idx should point to the end of a segment whose start is at p.
                     debug_assert_eq!(self.point_idx[segs[seg_idx].other_half()], p);
 
-                    let loop_contour_idx = ContourIdx(ret.contours.len());
-                    for &seg in &segs[seg_idx..] {
-                        seg_contour[seg.idx.0] = Some(loop_contour_idx);
-                    }
-                    ret.contours.push(Contour {
-                        path: self.segs_to_path(&segs[seg_idx..], &positions),
-                        parent: Some(contour_idx),
-                        outer: !ret.contours[contour_idx.0].outer,
-                    });
+                    finish_loop(&mut ret, &segs[seg_idx..]);
                     segs.truncate(seg_idx);
                     // In principle, we should also be unsetting `last_visit`
                     // for all points in the contour we just removed. I *think*
@@ -1282,10 +1303,7 @@ impl<W: WindingNumber> Topology<W> {
 
                 next = nbr.other_half();
             }
-            for &seg in &segs {
-                seg_contour[seg.idx.0] = Some(contour_idx);
-            }
-            ret.contours[contour_idx.0].path = self.segs_to_path(&segs, &positions);
+            finish_loop(&mut ret, &segs);
         }
 
         ret
-- 
2.43.0


From aa294e3f76c94f522ecb2fe98e0931d35865c796 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 04/16] fix: look past deleted segments when deciding whether
 coincident segments are neighbors

---
 src/topology.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 7f067c8..c2690ba 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -847,7 +847,13 @@ impl<W: WindingNumber> Topology<W> {
                 // b and c aren't. Then merging a and d would be bad -- even if they're clockwise
                 // neighbors by going around the way that avoids b and c -- because it would mess up
                 // the winding numbers of b and c.
-                if y0 != y1 && self.scan_west[idx] != Some(cw_nbr.idx) {
+                // A neighbor that was itself merged into something else doesn't count: it's no
+                // longer between us and whatever was beyond it.
+                let mut west = self.scan_west[idx];
+                while let Some(deleted) = west.filter(|w| self.deleted[*w]) {
+                    west = self.scan_west[deleted];
+                }
+                if y0 != y1 && west != Some(cw_nbr.idx) {
                     continue;
                 }
                 if y0 != y1 {
-- 
2.43.0


From f8b7326b11f40a7b0bda1de9558fa5f1d627b575 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 05/16] fix: copy unperturbed lines only up to the height where
 the perturbed part starts

---
 src/position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index a8b6dd7..6760d32 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -77,10 +77,10 @@ fn ordered_curves_all_close(
         if bez_end_y(&out.path) < y0 {
             out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
+            let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
             if segs[seg_idx].is_line() {
-                out.path.line_to(endpoint)
+                out.path.line_to(c.p3)
             } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
                 out.path.curve_to(c.p1, c.p2, c.p3);
             }
         }
-- 
2.43.0


From dc0c0cd48ef13325add66f31126ec555cca41f4d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 06/16] fix: report NaNs and infinities in the input instead of
 panicking

---
 src/lib.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 047f395..8e211d0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,6 +84,17 @@ impl std::fmt::Display for Error {
 
 impl std::error::Error for Error {}
 
+/// Checks that all the coordinates of a path are finite.
+fn check_finite(path: &kurbo::BezPath) -> Result<(), Error> {
+    if path.iter().any(|el| el.is_nan()) {
+        Err(Error::NaN)
+    } else if path.iter().any(|el| !el.is_finite()) {
+        Err(Error::Infinity)
+    } else {
+        Ok(())
+    }
+}
+
 /// Computes a boolean operation between two sets, each of which is described as
 /// a collection of closed polylines.
 ///
@@ -96,14 +107,17 @@ pub fn binary_op(
     fill_rule: FillRule,
     op: BinaryOp,
 ) -> Result<topology::Contours, Error> {
+    check_finite(set_a)?;
+    check_finite(set_b)?;
+
     // Find the extremal values, to figure out how much precision we can support.
     let bbox = set_a.bounding_box().union(set_b.bounding_box());
     let min = bbox.min_x().min(bbox.min_y());
     let max = bbox.max_x().max(bbox.max_y());
+    // The coordinates are finite, but computing the bounding box might have overflowed.
     if min.is_infinite() || max.is_infinite() {
         return Err(Error::Infinity);
     }
-    // If there was any NaN in the input, it should have propagated to the min and max.
     if min.is_nan() || max.is_nan() {
         return Err(Error::NaN);
     }
@@ -130,6 +144,9 @@ pub fn binary_op_with_eps(
     op: BinaryOp,
     eps: f64,
 ) -> Result<topology::Contours, Error> {
+    check_finite(set_a)?;
+    check_finite(set_b)?;
+
     let top = Topology::from_paths_binary(set_a, set_b, eps)?;
     #[cfg(feature = "debug-svg")]
     {
-- 
2.43.0


From d1339bac93149c2231ba0fd9679259f1c687a6aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 07/16] fix: ask for an accurate y, not an ever less accurate
 t, when solving for a height

The root finder's tolerance is on the parameter. Scaling it up with the size of
the coefficients made t worthless for large coordinates (at 1e5, t was off by
5e-8; at 1e12 it was always 0.5), and the sweep panicked or did not return.
---
 src/curve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 4c8b2cb..b731765 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -352,7 +352,9 @@ pub fn solve_t_for_y(c: CubicBez, y: f64) -> f64 {
     let c0 = c.p0.y - y;
     let cubic = Cubic::new([c0, c1, c2, c3]);
 
-    let eps = 1e-12 * cubic.max_abs_coefficient().max(1.0);
+    // The root finder wants to know how accurate `t` should be, and we want an
+    // accurate `y`.
+    let eps = 1e-12 / cubic.max_abs_coefficient().max(1.0);
     let roots = cubic.roots_between(0.0, 1.0, eps);
     if !roots.is_empty() {
         return roots[0];
-- 
2.43.0


From 9f0ce624e7a77eff44fd066e23d1d6b75a87e277 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 08/16] =?UTF-8?q?fix:=20an=20open=20B=C3=A9zier=20path=20h?=
 =?UTF-8?q?as=20no=20predecessor=20at=20its=20start=20and=20no=20successor?=
 =?UTF-8?q?=20at=20its=20end?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/segments.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 1fdb66b..20194d9 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -386,6 +386,9 @@ impl Segments {
                         start_point,
                         end_point,
                     });
+                } else {
+                    self.contour_prev[start_idx] = None;
+                    self.contour_next[end_idx] = None;
                 }
             }
         }
-- 
2.43.0


From e7b58fd368539597edd4f02c05f176d57c34ae8e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 09/16] fix: don't let segments that end at a sweep line
 constrain the positions of the others

Their order isn't maintained, so they could drag other segments arbitrarily far.
---
 src/sweep/sweep_line.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 535ff56..6774ee5 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -1526,10 +1526,20 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
 
         // And now we repeat for the new sweep line: compute the feasible positions
         // and then choose the actual positions.
+        //
+        // Segments that end here aren't kept in order with the others (see
+        // `find_invalid_order`), so they must not constrain the others' positions.
+        // They get their exact position below.
+        let leaves = |entry: &SegmentOrderEntry| entry.exit && entry.old_seg.is_none();
         buffers.old_line.clear();
-        buffers
-            .old_line
-            .extend(self.state.line.segs.range(range.segs.clone()).cloned());
+        buffers.old_line.extend(
+            self.state
+                .line
+                .segs
+                .range(range.segs.clone())
+                .filter(|entry| !leaves(entry))
+                .cloned(),
+        );
         feasible_horizontal_positions(
             &buffers.old_line,
             |entry| entry.seg,
@@ -1539,10 +1549,16 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
             &mut buffers.positions,
         );
         let mut max_so_far = f64::NEG_INFINITY;
-        for (idx, (entry, min_x, max_x)) in buffers.positions.iter().enumerate() {
+        let mut positions = buffers.positions.iter();
+        for (idx, entry) in self.state.line.segs.range(range.segs.clone()).enumerate() {
             let ev = &mut events[entry.old_idx.unwrap() - range.segs.start];
             ev.sweep_idx = Some(range.segs.start + idx);
             debug_assert_eq!(ev.seg_idx, entry.old_seg());
+            if leaves(entry) {
+                continue;
+            }
+            // unwrap: there's a position for every entry that doesn't leave.
+            let (_, min_x, max_x) = positions.next().unwrap();
             let preferred_x = if *min_x <= ev.x0 && ev.x0 <= *max_x {
                 // Try snapping to the previous position if possible.
                 ev.x0
-- 
2.43.0


From c074b860a663da44d94a57d46e0fd6a6f92d43fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 10/16] fix: don't skip the next touch when two curves are
 already close

next_touch_after skipped the whole interval following a close one, so two
curves that are close at the starting height, part, and touch later were
said not to touch (or only at a later touch).
---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index b731765..b3f63f9 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -165,7 +165,7 @@ impl CurveOrder {
 
         // If this interval is the last one, we'll say there's no touch.
         // It will get handled at the endpoint anyway.
-        let (_, next_y1, next_order) = iter.next()?;
+        let (_, _, next_order) = iter.next()?;
 
         let cross_y = (y0 + y1) / 2.0;
         match next_order {
@@ -174,7 +174,7 @@ impl CurveOrder {
                 if y < y0 {
                     Some(CurveInteraction::Touch(cross_y))
                 } else {
-                    self.next_touch_after(next_y1)
+                    self.next_touch_after(y1)
                 }
             }
             Order::Ish => {
-- 
2.43.0


From efb301f0056afba1e986804e842e9d8a4010dd7d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:05:36 +0000
Subject: [PATCH 11/16] fix: report the right signs for constant, linear and
 pure square quadratics

For a linear function the initial sign was wrong whenever the infinite root
came out positive; for constants and for multiples of x^2 it was zero.
---
 src/curve/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index b3f63f9..94ca122 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -576,10 +576,10 @@ impl Quadratic {
             let root2 = -z / (2.0 * c2);
 
             // If z is zero, it means that c1 and disc are both (exactly!) zero,
-            // and so everything is zero.
+            // and so c2 or c0 is zero. Either way, the sign never changes.
             if z == 0.0 {
                 QuadraticSigns {
-                    initial_sign: 0.0,
+                    initial_sign: if c2 != 0.0 { c2 } else { c0 },
                     smaller_root: f64::NEG_INFINITY,
                     bigger_root: f64::NEG_INFINITY,
                 }
@@ -588,7 +588,16 @@ impl Quadratic {
                 // (although possibly infinite).
                 debug_assert!(!root1.is_nan() && !root2.is_nan());
 
-                let initial_sign = if root2.is_infinite() { c1 } else { c2 };
+                // If root2 is infinite then we're linear, and we have the opposite
+                // sign of `c1` until root1. Whether that's the initial sign depends
+                // on whether root2 comes first.
+                let initial_sign = if root2 == f64::NEG_INFINITY {
+                    c1
+                } else if root2 == f64::INFINITY {
+                    -c1
+                } else {
+                    c2
+                };
 
                 QuadraticSigns {
                     initial_sign,
-- 
2.43.0


From 92982cb933573647a812d1b00bf2e5acbba52be8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:16:19 +0000
Subject: [PATCH 12/16] fix: bound all of a horizontal segment in
 Segment::lower and Segment::upper

---
 src/geom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geom.rs b/src/geom.rs
index e73000d..8bed46d 100644
--- a/src/geom.rs
+++ b/src/geom.rs
@@ -348,6 +348,9 @@ impl Segment {
         let end_y = (y + eps).min(self.end().y);
 
         match self.inner {
+            SegmentInner::Line { p0, p1 } if p0.y == p1.y => {
+                kurbo::Rect::from_points(p0.to_kurbo(), p1.to_kurbo())
+            }
             SegmentInner::Line { .. } => {
                 let start_x = self.at_y(start_y);
                 let end_x = self.at_y(end_y);
-- 
2.43.0


From 437a641b7d1b7d69eaf337aa369f8709cc691728 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:09:01 +0000
Subject: [PATCH 13/16] fix: scale the tolerance when ordering near-horizontal
 curves in rotated coordinates

---
 src/curve/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 94ca122..913e639 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -961,7 +961,10 @@ fn with_rotation(
         c1_rot,
         y0_rot,
         y1_rot,
-        tolerance,
+        // In rotated coordinates we measure along a diagonal of the original
+        // coordinates, and steep parts of the curves are further apart in that
+        // direction than they are horizontally.
+        tolerance * std::f64::consts::SQRT_2,
         accuracy,
         &mut order_rot,
     );
-- 
2.43.0


From 29f6beb30674f332c52bd7bc4f840af08a8058e8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:31:04 +0000
Subject: [PATCH 14/16] fix: position output segments with negative y
 coordinates

---
 src/position.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 6760d32..7b0c4c5 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -260,7 +260,7 @@ pub(crate) fn compute_positions(
     // until they're needed (by copying in one go, we avoid excess subdivisions). That means
     // we need to separately keep track of how far down we've looked at each output. If
     // we weren't lazy, that would just be the last `y` coordinate in `out`.
-    let mut last_y = OutputSegVec::<f64>::with_size(orig_seg_map.len());
+    let mut last_y = OutputSegVec::from_vec(vec![f64::NEG_INFINITY; orig_seg_map.len()]);
     let mut queue = BinaryHeap::<HeapEntry>::new();
     for idx in out.indices() {
         let p = endpoints[idx.first_half()];
-- 
2.43.0


From cf0fc66cddb6a2abcc3b27b9f91f0c53bbe1cab2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:34:54 +0000
Subject: [PATCH 15/16] fix: look for close neighbors that arrive later when
 positioning segments

---
 src/position.rs | 22 ++++++++++++++++++++--
 src/topology.rs |  9 +++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 7b0c4c5..0fc6766 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -285,7 +285,16 @@ pub(crate) fn compute_positions(
         let mut y1 = endpoints[entry.idx.second_half()].y;
         let mut west_scan = vec![entry.idx];
         let mut cur = entry.idx;
-        while let Some(nbr) = scan_order.west_neighbor_after(cur, y0) {
+        loop {
+            let Some(nbr) = scan_order.west_neighbor_after(cur, y0) else {
+                // There's no neighbor yet, but there might be one further down.
+                if let Some(next_close_y) =
+                    scan_order.close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+                {
+                    y1 = y1.min(next_close_y);
+                }
+                break;
+            };
             let order = cmp.compare_segments(segs, orig_seg_map[nbr], orig_seg_map[cur]);
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
@@ -304,7 +313,16 @@ pub(crate) fn compute_positions(
 
         let mut east_scan = vec![];
         let mut cur = entry.idx;
-        while let Some(nbr) = scan_order.east_neighbor_after(cur, y0) {
+        loop {
+            let Some(nbr) = scan_order.east_neighbor_after(cur, y0) else {
+                // There's no neighbor yet, but there might be one further down.
+                if let Some(next_close_y) =
+                    scan_order.close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+                {
+                    y1 = y1.min(next_close_y);
+                }
+                break;
+            };
             let order = cmp.compare_segments(segs, orig_seg_map[cur], orig_seg_map[nbr]);
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
diff --git a/src/topology.rs b/src/topology.rs
index c2690ba..49eedf9 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1703,20 +1703,21 @@ impl HalfScanLineOrder {
         segs: &Segments,
         cmp: &mut ComparisonCache,
     ) -> Option<f64> {
-        for (_, y1, other_seg) in self.iter(seg) {
+        for (y0, y1, other_seg) in self.iter(seg) {
             if y1 <= y {
                 continue;
             }
 
             if let Some(other_seg) = other_seg {
                 let order = cmp.compare_segments(segs, orig_seg[seg], orig_seg[other_seg]);
+                // They might have been close already before they became neighbors.
+                let y0 = y0.max(y);
                 let next_ish = order
                     .iter()
                     .take_while(|(order_y0, _, _)| *order_y0 < y1)
-                    .filter(|(_, _, order)| *order == Order::Ish)
-                    .find(|(order_y0, _, _)| *order_y0 >= y);
+                    .find(|(_, order_y1, order)| *order == Order::Ish && *order_y1 > y0);
                 if let Some((order_y0, _, _)) = next_ish {
-                    return Some(order_y0);
+                    return Some(order_y0.max(y0));
                 }
             }
         }
-- 
2.43.0


From c27cd10db0bdca4bc84e57ea097d7704e22abcef Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 08:50:14 +0000
Subject: [PATCH 16/16] fix: merge coincident lines even if they were moved
 along each other

---
 src/topology.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index 49eedf9..117aa7d 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -856,9 +856,13 @@ impl<W: WindingNumber> Topology<W> {
                 if y0 != y1 && west != Some(cw_nbr.idx) {
                     continue;
                 }
-                if y0 != y1 {
-                    let s1 = self.orig_seg[idx];
-                    let s2 = self.orig_seg[cw_nbr];
+                let s1 = self.orig_seg[idx];
+                let s2 = self.orig_seg[cw_nbr];
+                // Two lines that were given the same ends are coincident no matter where they came
+                // from. (If they're nearly horizontal, one might have been moved a long way along the
+                // other.)
+                let both_lines = self.segments[s1].is_line() && self.segments[s2].is_line();
+                if y0 != y1 && !both_lines {
                     let s1 = y_subsegment(self.segments[s1].to_kurbo_cubic(), y0, y1);
                     let s2 = y_subsegment(self.segments[s2].to_kurbo_cubic(), y0, y1);
                     if (s1.p0 - s2.p0).hypot() > self.eps
-- 
2.43.0

