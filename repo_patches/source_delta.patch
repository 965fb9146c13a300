From 33e573a5ea3838662d2c96a2725a6290737e8908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 01/29] fix: build against the declared i_shape 1.10.0, which
 has no DedupContour

---
 iOverlay/src/core/extract.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index b5a76b0..22e22c5 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -11,7 +11,6 @@ use i_float::triangle::Triangle;
 use i_shape::int::path::{IntPath, PointPathExtension};
 use i_shape::int::shape::{IntContour, IntShapes};
 use i_shape::int::simple::Simplify;
-use i_shape::int::dedup::DedupContour;
 use crate::core::overlay::ContourDirection;
 use crate::geom::v_segment::VSegment;
 
@@ -355,6 +354,24 @@ impl Validate for IntPath {
     }
 }
 
+trait DedupContour {
+    /// Removes consecutive duplicate points, treating the contour as closed.
+    ///
+    /// - Returns: `true` if at least one point was removed.
+    fn dedup_contour(&mut self) -> bool;
+}
+
+impl DedupContour for IntPath {
+    fn dedup_contour(&mut self) -> bool {
+        let count = self.len();
+        self.dedup();
+        while self.len() > 1 && self.first() == self.last() {
+            self.pop();
+        }
+        self.len() != count
+    }
+}
+
 pub(crate) trait Visit {
     fn is_visited(&self, index: usize) -> bool;
     fn is_not_visited(&self, index: usize) -> bool;
-- 
2.43.0


From b88027e794dbc6f21a5c34d6bd759b3d237c8cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 02/29] fix: keep the closing corner of a contour whose last
 point repeats its first

---
 iOverlay/src/segm/build.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iOverlay/src/segm/build.rs b/iOverlay/src/segm/build.rs
index 5dbd007..785d059 100644
--- a/iOverlay/src/segm/build.rs
+++ b/iOverlay/src/segm/build.rs
@@ -56,6 +56,11 @@ fn private_append_iter<I: Iterator<Item=IntPoint>, C: WindingCount>(segments: &m
             segments.push(Segment::with_ab(p1, q0, direct, invert));
             segments.push(Segment::with_ab(q0, q1, direct, invert));
         }
+        (true, true) if p1 == q0 && Triangle::is_not_line_point(p0, q0, q1) => {
+            // the last point repeats the first one, but the corner itself is not degenerate
+            segments.push(Segment::with_ab(p0, q0, direct, invert));
+            segments.push(Segment::with_ab(q0, q1, direct, invert));
+        }
         (true, true) => {
             // all collinear
             if p0 != q1 {
-- 
2.43.0


From cf40cb26c67d83a89730b0a2d03427d5340e4ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 03/29] fix: splitting no segments with the tree or fragment
 strategy no longer indexes an empty list

---
 iOverlay/src/split/solver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iOverlay/src/split/solver.rs b/iOverlay/src/split/solver.rs
index 42f87d5..cd68d16 100644
--- a/iOverlay/src/split/solver.rs
+++ b/iOverlay/src/split/solver.rs
@@ -37,6 +37,10 @@ impl SplitSolver {
 
     #[inline]
     pub(crate) fn split<C: WindingCount>(&self, segments: Vec<Segment<C>>) -> Vec<Segment<C>> {
+        if segments.is_empty() {
+            return segments;
+        }
+
         let is_list = self.solver.is_list_split(&segments);
         let snap_radius = self.snap_radius();
         if is_list {
-- 
2.43.0


From eddcca27486e7674ca82cfc2b5f57b69dfc1b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 04/29] fix: fragment splitting keeps the marks of collinear
 overlaps that span several grid columns

---
 iOverlay/src/split/solver_fragment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 4ec8b09..b590c02 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -203,7 +203,7 @@ impl SplitSolver {
                 let mask = CrossSolver::collinear(&fi.x_segment, &fj.x_segment);
                 if mask == 0 { return false; }
 
-                if !(fi.rect.contains_with_radius(fi.x_segment.a, r) || fj.rect.contains_with_radius(fi.x_segment.a, r)) {
+                if !(fi.rect.contains_with_radius(fj.x_segment.a, r) || fj.rect.contains_with_radius(fj.x_segment.a, r)) {
                     return false;
                 }
 
-- 
2.43.0


From 681849a4f36ddb56f2a21d3998f9b835f9c5f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 05/29] fix: split border-aligned vertical edges at segments
 that end on the grid border

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index b590c02..3f1d330 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -33,7 +33,8 @@ impl SplitSolver {
 
             if !buffer.on_border.is_empty() {
                 for (&index, segments) in buffer.on_border.iter_mut() {
-                    if let Some(fragments) = buffer.groups.get(index) {
+                    // segments ending on the border belong to the previous column
+                    if let Some(fragments) = buffer.groups.get(index - 1) {
                         let border_x = buffer.layout.pos(index);
                         Self::on_border_split(border_x, fragments, segments, &mut marks);
                     }
-- 
2.43.0


From 216efde373a14c64243aeeebb838df7d0e0f84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 06/29] fix: compute fragment bounds of long segments directly
 instead of counting up to them

---
 iOverlay/src/split/grid_layout.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/iOverlay/src/split/grid_layout.rs b/iOverlay/src/split/grid_layout.rs
index 345f175..638ac0d 100644
--- a/iOverlay/src/split/grid_layout.rs
+++ b/iOverlay/src/split/grid_layout.rs
@@ -101,19 +101,14 @@ impl FragmentBuffer {
         let width = (s.b.x - s.a.x) as u64;
         let height = (s.b.y - s.a.y).unsigned_abs() as u64;
 
-        let log = (width * height).ilog2();
-        let p = 63 - log;
-        let k = (height << p) / width;
-
         let mut w = (self.layout.pos(i0 + 1) - s.a.x) as u64;
         let dw = 1 << self.layout.power;
 
         for i in i0..i1 {
-            let h_min = (w * k) >> p;
-            let mut h_max = h_min;
-            while h_max * width < height * w {
-                h_max += 1;
-            }
+            // width, height and w are less than 2^31, so the product fits u64
+            let hw = height * w;
+            let h_min = hw / width;
+            let h_max = hw.div_ceil(width);
 
             let max_x = x0 + (w as i32);
 
-- 
2.43.0


From fe44695193de86fc0dfa844b2de2ee9003b433a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 07/29] fix: keep the fragment snap radius within the
 coordinate range after many iterations

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 3f1d330..285479c 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -197,7 +197,8 @@ impl SplitSolver {
             return false;
         };
 
-        let r = radius as i32;
+        // radius limits a squared distance and can reach 2^60
+        let r = radius.isqrt() as i32;
 
         match cross.cross_type {
             CrossType::Overlay => {
-- 
2.43.0


From 6e9a06a0316814261eef63b7ce559fca3a36a360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 08/29] fix: order sweep segments by their ends when one starts
 on the other, so holes keep their outer contour

---
 iOverlay/src/geom/v_segment.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/geom/v_segment.rs b/iOverlay/src/geom/v_segment.rs
index ca3f49d..22d4f56 100644
--- a/iOverlay/src/geom/v_segment.rs
+++ b/iOverlay/src/geom/v_segment.rs
@@ -15,9 +15,12 @@ impl VSegment {
     #[inline(always)]
     fn is_under_segment_order(&self, other: &VSegment) -> Ordering {
         match self.a.cmp(&other.a) {
-            Ordering::Less => Triangle::clock_order_point(self.a, other.a, self.b),
+            // when one segment starts on the other (simplified contours may touch so), their ends decide
+            Ordering::Less => Triangle::clock_order_point(self.a, other.a, self.b)
+                .then_with(|| Triangle::clock_order_point(self.a, other.b, self.b)),
             Ordering::Equal => Triangle::clock_order_point(self.a, other.b, self.b),
-            Ordering::Greater => Triangle::clock_order_point(other.a, other.b, self.a),
+            Ordering::Greater => Triangle::clock_order_point(other.a, other.b, self.a)
+                .then_with(|| Triangle::clock_order_point(other.a, other.b, self.b)),
         }
     }
 
-- 
2.43.0


From 20952c81845810f12d5f216b20a49a0e598cae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 09/29] fix: shape vectors attach holes to the shape below them
 and do not fail on several shapes

---
 iOverlay/src/bind/segment.rs           | 24 ++++++------------------
 iOverlay/src/vector/extract_vectors.rs | 12 ++++++++----
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/iOverlay/src/bind/segment.rs b/iOverlay/src/bind/segment.rs
index fdeeec2..95efe5f 100644
--- a/iOverlay/src/bind/segment.rs
+++ b/iOverlay/src/bind/segment.rs
@@ -1,5 +1,5 @@
 use crate::geom::v_segment::VSegment;
-use crate::vector::edge::{VectorEdge, VectorPath};
+use crate::vector::edge::VectorPath;
 use i_float::int::point::IntPoint;
 use i_key_sort::index::{BinKey, BinLayout};
 use i_shape::int::path::IntPath;
@@ -119,25 +119,13 @@ impl IdSegments for VectorPath {
         x_max: i32,
         clockwise: bool,
     ) {
-        fn inner<I: Iterator<Item = VectorEdge>>(
-            iter: I,
-            buffer: &mut Vec<IdSegment>,
-            id_data: ContourIndex,
-            x_min: i32,
-            x_max: i32,
-        ) {
-            for vec in iter {
-                if vec.a.x < vec.b.x && x_min < vec.b.x && vec.a.x <= x_max {
-                    buffer.push(IdSegment::new(id_data, vec.a, vec.b));
-                }
+        // take the edges that have the filled side above, as for IntPath
+        for vec in self.iter() {
+            let (a, b) = if clockwise { (vec.b, vec.a) } else { (vec.a, vec.b) };
+            if a.x < b.x && x_min < b.x && a.x <= x_max {
+                buffer.push(IdSegment::new(id_data, a, b));
             }
         }
-
-        if clockwise {
-            inner(self.iter().copied(), buffer, id_data, x_min, x_max);
-        } else {
-            inner(self.iter().rev().copied(), buffer, id_data, x_min, x_max);
-        }
     }
 }
 
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 8e1bb76..e68e017 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -1,7 +1,7 @@
 use i_float::int::point::IntPoint;
 
 use crate::bind::segment::{ContourIndex, IdSegment, IdSegments};
-use crate::bind::solver::ShapeBinder;
+use crate::bind::solver::{ShapeBinder, SortByAngle};
 use crate::core::filter::MaskFilter;
 use crate::core::graph::OverlayGraph;
 use crate::core::node::OverlayNode;
@@ -9,7 +9,6 @@ use crate::core::overlay_rule::OverlayRule;
 use crate::core::solver::Solver;
 use crate::geom::v_segment::VSegment;
 use crate::segm::segment::SegmentFill;
-use crate::util::sort::SmartBinSort;
 use crate::vector::edge::{VectorEdge, VectorPath, VectorShape};
 
 impl OverlayGraph {
@@ -155,7 +154,7 @@ impl JoinHoles for Vec<VectorShape> {
     }
 
     fn scan_join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool) {
-        let hole_segments: Vec<_> = holes
+        let mut hole_segments: Vec<_> = holes
             .iter()
             .enumerate()
             .map(|(id, path)| {
@@ -172,6 +171,7 @@ impl JoinHoles for Vec<VectorShape> {
             .collect();
 
         debug_assert!(is_sorted(&hole_segments));
+        hole_segments.add_sort_by_angle();
 
         let x_min = hole_segments[0].v_segment.a.x;
         let x_max = hole_segments[hole_segments.len() - 1].v_segment.a.x;
@@ -181,7 +181,11 @@ impl JoinHoles for Vec<VectorShape> {
             shape[0].append_id_segments(&mut segments, ContourIndex::new_shape(i), x_min, x_max, clockwise);
         }
 
-        segments.smart_bin_sort_by(solver, |a, b| a.v_segment.a.x.cmp(&b.v_segment.a.x));
+        for (i, hole) in holes.iter().enumerate() {
+            hole.append_id_segments(&mut segments, ContourIndex::new_hole(i), x_min, x_max, clockwise);
+        }
+
+        segments.sort_by_a_then_by_angle(solver);
 
         let solution = ShapeBinder::bind(self.len(), hole_segments, segments);
 
-- 
2.43.0


From 8a2d486f3ec4880ad74114370fec20566266189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 10/29] fix: split a pair of segments with the tree and
 fragment strategies as the list strategy does

---
 iOverlay/src/split/solver_fragment.rs | 2 +-
 iOverlay/src/split/solver_tree.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 285479c..88a2a4d 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -22,7 +22,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
 
             buffer.init_fragment_buffer(segments.iter().map(|it| it.x_segment));
             for (i, segment) in segments.iter().enumerate() {
diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index bb26ebb..e347321 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -39,7 +39,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
             need_to_fix = false;
 
             let radius = snap_radius.radius();
-- 
2.43.0


From 1c1052dffea45a1392e37331f8b9736e7bf04f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 11/29] fix: slicing cuts the filled area along the strings
 only, not along inner edges of the shapes

---
 iOverlay/src/string/filter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/filter.rs b/iOverlay/src/string/filter.rs
index 2ec39b3..52fe6b3 100644
--- a/iOverlay/src/string/filter.rs
+++ b/iOverlay/src/string/filter.rs
@@ -1,5 +1,5 @@
 use crate::core::link::OverlayLink;
-use crate::segm::segment::{SUBJ_BOTH, SUBJ_BOTTOM, SUBJ_TOP};
+use crate::segm::segment::{CLIP_BOTH, SUBJ_BOTH, SUBJ_BOTTOM, SUBJ_TOP};
 use crate::string::graph::StringGraph;
 use crate::string::rule::StringRule;
 
@@ -53,7 +53,15 @@ impl StringGraph {
     fn filter_slice(&self) -> Vec<u8> {
         self.links
             .iter()
-            .map(|link| link.fill & SUBJ_BOTH)
+            .map(|link| {
+                let fill = link.fill & SUBJ_BOTH;
+                if fill == SUBJ_BOTH && link.fill & CLIP_BOTH == 0 {
+                    // an inner edge of the shapes, only strings cut the filled area
+                    0
+                } else {
+                    fill
+                }
+            })
             .collect()
     }
 }
-- 
2.43.0


From 3964f17569fb35a3db5fc969ccbfea51bb3ac0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 12/29] fix: slicing with a minimal area drops the small
 pieces, not the large ones

---
 iOverlay/src/string/split.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/split.rs b/iOverlay/src/string/split.rs
index bf37303..f960e13 100644
--- a/iOverlay/src/string/split.rs
+++ b/iOverlay/src/string/split.rs
@@ -34,7 +34,7 @@ impl Split for IntPath {
             }
         }
 
-        if path.len() > 2 {
+        if path.len() > 2 && path.validate_area(min_area) {
             result.push(path);
         }
 
@@ -53,7 +53,7 @@ impl ValidateArea for IntPath {
             return true;
         }
         let abs_area = self.unsafe_area().unsigned_abs() as usize >> 1;
-        abs_area < min_area
+        abs_area >= min_area
     }
 }
 
-- 
2.43.0


From 8c6190cf44bdb5a3d6680e8c37ad2c780b1adf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 13/29] fix: extraction starts again at a link it did not visit
 when a contour began at another link of the node

---
 iOverlay/src/core/extract.rs           | 1 -
 iOverlay/src/mesh/boolean.rs           | 2 --
 iOverlay/src/vector/extract_vectors.rs | 2 --
 3 files changed, 5 deletions(-)

diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index 22e22c5..ae3efdd 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -83,7 +83,6 @@ impl OverlayGraph {
             let (is_valid, is_modified) = contour.validate(min_area, simplify_contour);
 
             if !is_valid {
-                link_index += 1;
                 continue;
             }
 
diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index edbacd9..d402848 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -138,14 +138,12 @@ impl OverlayGraph {
 
             let mut path = self.get_fill_path(&start_data, direction, &mut bold, visited);
             if !bold {
-                link_index += 1;
                 continue;
             }
 
             let (is_valid, is_modified) = path.validate(min_area, true);
 
             if !is_valid {
-                link_index += 1;
                 continue;
             }
 
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index e68e017..40a3367 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -64,8 +64,6 @@ impl OverlayGraph {
                 let path = self.get_vector_path(start_data, false, visited);
                 shapes.push(vec![path]);
             };
-
-            link_index += 1;
         }
 
         shapes.join(&self.solver, holes, true);
-- 
2.43.0


From 646f3c18bdb42f93c9dd8ee150a95a81c2179e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 14/29] fix: bind a hole that touches itself at its most left
 point by its lowest edge there

---
 iOverlay/src/bind/solver.rs            | 28 +++++++++++++------------
 iOverlay/src/core/extract.rs           | 14 ++++++-------
 iOverlay/src/mesh/boolean.rs           | 14 ++++++-------
 iOverlay/src/vector/extract_vectors.rs | 29 ++++----------------------
 4 files changed, 31 insertions(+), 54 deletions(-)

diff --git a/iOverlay/src/bind/solver.rs b/iOverlay/src/bind/solver.rs
index 022166e..e7ff099 100644
--- a/iOverlay/src/bind/solver.rs
+++ b/iOverlay/src/bind/solver.rs
@@ -204,22 +204,24 @@ pub(crate) trait LeftBottomSegment {
 
 impl LeftBottomSegment for IntContour {
     fn left_bottom_segment(&self) -> VSegment {
-        let mut index = 0;
-        let mut a = *self.first().unwrap();
-        for (i, &p) in self.iter().enumerate().skip(1) {
-            if p < a {
-                a = p;
-                index = i;
+        let a = self.iter().copied().min().unwrap();
+        let n = self.len();
+        let mut best = None;
+        // the contour can touch itself at its most left point
+        for (i, &p) in self.iter().enumerate() {
+            if p != a {
+                continue;
+            }
+            for b in [self[(i + 1) % n], self[(i + n - 1) % n]] {
+                let s = VSegment { a, b };
+                match best {
+                    Some(v) if !s.is_under_segment(&v) => {}
+                    _ => best = Some(s),
+                }
             }
         }
-        let n = self.len();
-        let b0 = self[(index + 1) % n];
-        let b1 = self[(index + n - 1) % n];
-
-        let s0 = VSegment { a, b: b0 };
-        let s1 = VSegment { a, b: b1 };
 
-        if s0.is_under_segment(&s1) { s0 } else { s1 }
+        best.unwrap()
     }
 }
 
diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index ae3efdd..d40e370 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -80,7 +80,7 @@ impl OverlayGraph {
             let start_data = StartPathData::new(direction, link, left_top_link);
 
             let mut contour = self.get_contour(&start_data, direction, visited);
-            let (is_valid, is_modified) = contour.validate(min_area, simplify_contour);
+            let (is_valid, _) = contour.validate(min_area, simplify_contour);
 
             if !is_valid {
                 continue;
@@ -98,15 +98,13 @@ impl OverlayGraph {
                         b: contour[contour.len() - 1],
                     }
                 };
-                if is_modified {
-                    let most_left = contour.left_bottom_segment();
-                    if most_left != v_segment {
-                        v_segment = most_left;
-                        is_all_anchors_sorted = false;
-                    }
+                // a modified contour can lose its start, and a contour that touches itself at the start has a lower edge
+                let most_left = contour.left_bottom_segment();
+                if most_left != v_segment {
+                    v_segment = most_left;
+                    is_all_anchors_sorted = false;
                 };
 
-                debug_assert_eq!(v_segment, contour.left_bottom_segment());
                 let id_data = ContourIndex::new_hole(holes.len());
                 anchors.push(IdSegment::with_segment( id_data, v_segment));
                 holes.push(contour);
diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index d402848..57647ce 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -141,7 +141,7 @@ impl OverlayGraph {
                 continue;
             }
 
-            let (is_valid, is_modified) = path.validate(min_area, true);
+            let (is_valid, _) = path.validate(min_area, true);
 
             if !is_valid {
                 continue;
@@ -159,15 +159,13 @@ impl OverlayGraph {
                         b: path[path.len() - 1],
                     }
                 };
-                if is_modified {
-                    let most_left = path.left_bottom_segment();
-                    if most_left != v_segment {
-                        v_segment = most_left;
-                        is_all_anchors_sorted = false;
-                    }
+                // a modified contour can lose its start, and a contour that touches itself at the start has a lower edge
+                let most_left = path.left_bottom_segment();
+                if most_left != v_segment {
+                    v_segment = most_left;
+                    is_all_anchors_sorted = false;
                 };
 
-                debug_assert_eq!(v_segment, path.left_bottom_segment());
                 let id = ContourIndex::new_hole(holes.len());
                 anchors.push(IdSegment::with_segment(id, v_segment));
                 holes.push(path);
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 40a3367..d67b5f6 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -1,7 +1,7 @@
 use i_float::int::point::IntPoint;
 
 use crate::bind::segment::{ContourIndex, IdSegment, IdSegments};
-use crate::bind::solver::{ShapeBinder, SortByAngle};
+use crate::bind::solver::{LeftBottomSegment, ShapeBinder, SortByAngle};
 use crate::core::filter::MaskFilter;
 use crate::core::graph::OverlayGraph;
 use crate::core::node::OverlayNode;
@@ -9,7 +9,7 @@ use crate::core::overlay_rule::OverlayRule;
 use crate::core::solver::Solver;
 use crate::geom::v_segment::VSegment;
 use crate::segm::segment::SegmentFill;
-use crate::vector::edge::{VectorEdge, VectorPath, VectorShape};
+use crate::vector::edge::{ToPath, VectorEdge, VectorPath, VectorShape};
 
 impl OverlayGraph {
     pub fn extract_separate_vectors(&self) -> Vec<VectorEdge> {
@@ -156,13 +156,7 @@ impl JoinHoles for Vec<VectorShape> {
             .iter()
             .enumerate()
             .map(|(id, path)| {
-                let v = path[1];
-                let v_segment = if v.a < v.b {
-                    VSegment { a: v.a, b: v.b }
-                } else {
-                    VSegment { a: v.b, b: v.a }
-                };
-                debug_assert_eq!(v_segment, most_left_bottom(path));
+                let v_segment = most_left_bottom(path);
                 let id_data = ContourIndex::new_hole(id);
                 IdSegment::with_segment(id_data, v_segment)
             })
@@ -200,22 +194,7 @@ impl JoinHoles for Vec<VectorShape> {
 
 #[inline]
 fn most_left_bottom(path: &VectorPath) -> VSegment {
-    let mut index = 0;
-    let mut a = path[0].a;
-    for (i, &e) in path.iter().enumerate().skip(1) {
-        if e.a < a {
-            a = e.a;
-            index = i;
-        }
-    }
-    let n = path.len();
-    let b0 = path[index].b;
-    let b1 = path[(index + n - 1) % n].a;
-
-    let s0 = VSegment { a, b: b0 };
-    let s1 = VSegment { a, b: b1 };
-
-    if s0.is_under_segment(&s1) { s0 } else { s1 }
+    path.to_path().left_bottom_segment()
 }
 
 #[inline]
-- 
2.43.0


From c847bde7fd06179ae3cbc37a47c6472f1e7d4da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 15/29] fix: the list solver no longer hands an empty list over
 to the tree solver

---
 iOverlay/src/split/solver_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_list.rs b/iOverlay/src/split/solver_list.rs
index 670abb9..ceb2091 100644
--- a/iOverlay/src/split/solver_list.rs
+++ b/iOverlay/src/split/solver_list.rs
@@ -42,7 +42,7 @@ impl SplitSolver {
 
             snap_radius.increment();
 
-            if need_to_fix && !self.solver.is_list_split(&segments) {
+            if need_to_fix && segments.len() > 1 && !self.solver.is_list_split(&segments) {
                 // finish with tree solver if edges is become large
                 return self.tree_split(snap_radius, segments);
             }
-- 
2.43.0


From a7429b55ce85a9d5803a5d5e4a9bb2be5c2068a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 16/29] fix: stroking and outlining skip paths with too few
 points instead of failing

---
 iOverlay/src/mesh/outline/offset.rs | 9 +++++++++
 iOverlay/src/mesh/stroke/builder.rs | 6 ++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/mesh/outline/offset.rs b/iOverlay/src/mesh/outline/offset.rs
index 76c9d0b..d749187 100644
--- a/iOverlay/src/mesh/outline/offset.rs
+++ b/iOverlay/src/mesh/outline/offset.rs
@@ -107,6 +107,10 @@ where
                 return vec![];
             };
 
+            if path.len() < 3 {
+                return vec![];
+            }
+
             let area = path.unsafe_int_area(&adapter);
             if area >= -1 {
                 // single path must be clock-wised
@@ -125,6 +129,11 @@ where
             let mut overlay = Overlay::new(total_capacity);
 
             for path in self.iter_paths() {
+                if path.len() < 3 {
+                    // ignore degenerate paths
+                    continue;
+                }
+
                 let area = path.unsafe_int_area(&adapter);
                 if area.abs() <= 1 {
                     // ignore degenerate paths
diff --git a/iOverlay/src/mesh/stroke/builder.rs b/iOverlay/src/mesh/stroke/builder.rs
index a4f2d15..f27a4b9 100644
--- a/iOverlay/src/mesh/stroke/builder.rs
+++ b/iOverlay/src/mesh/stroke/builder.rs
@@ -112,9 +112,9 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> StrokeBui
     #[inline]
     fn capacity(&self, paths_count: usize, points_count: usize, is_closed_path: bool) -> usize {
         if is_closed_path {
-            self.join_builder.capacity() * points_count - 2
+            self.join_builder.capacity() * points_count
         } else {
-            self.join_builder.capacity() * (points_count - 1)
+            self.join_builder.capacity() * points_count.saturating_sub(1)
                 + paths_count
                     * (self.end_cap_builder.capacity() + self.start_cap_builder.capacity())
         }
@@ -139,6 +139,8 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> Builder<J
         // build segments only from points which are not equal in int space
 
         let n = path.len();
+        if n < 2 { return; }
+
         let mut ip0 = adapter.float_to_int(&path[0]);
         let mut ip = adapter.float_to_int(&path[1]);
         let mut j = 1;
-- 
2.43.0


From 3fcbda8a02efc3cffc14340bc8d5b7247330cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 17/29] fix: contour decomposition keeps every edge when loops
 pass repeated vertices crosswise or several times

---
 iOverlay/src/core/divide.rs | 40 +++++++++++++++----------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index e744e18..164de38 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -22,10 +22,6 @@ impl SubPath {
         self.path.extend_from_slice(&source[self.last..point.id]);
         self.last = point.id;
     }
-
-    fn shift(&mut self, point: IdPoint) {
-        self.last = point.id;
-    }
 }
 
 pub trait ContourDecomposition {
@@ -70,47 +66,43 @@ impl ContourDecomposition for IntContour {
 
         let mut contours = Vec::with_capacity((anchors.len() >> 1) + 1);
 
-        let mut queue = vec![];
+        let mut queue: Vec<SubPath> = vec![];
 
         let mut i = 0;
         while i < anchors.len() {
             let a = anchors[i];
-            let mut sub_path: SubPath = if let Some(sub_path) = queue.pop() {
-                sub_path
+            if let Some(sub_path) = queue.last_mut() {
+                sub_path.join(a, self);
             } else {
                 queue.push(SubPath::start(a));
                 i += 1;
                 continue;
             };
 
-            if sub_path.node == a.point {
-                sub_path.join(a, self);
-                contours.push(sub_path.path);
-                if let Some(prev) = queue.last_mut() {
-                    prev.shift(a);
-                } else {
-                    queue.push(SubPath::start(a));
-                }
-            } else {
-                sub_path.join(a, self);
-                queue.push(sub_path);
-                queue.push(SubPath::start(a));
+            if let Some(index) = queue.iter().rposition(|sub_path| sub_path.node == a.point) {
+                // close the loop, the other nodes passed since its start belong to it
+                contours.push(queue.drain(index..).flat_map(|sub_path| sub_path.path).collect());
             }
+            queue.push(SubPath::start(a));
             i += 1;
         }
 
-        let mut sub_path: SubPath = queue.pop().unwrap();
+        let mut last_path: IntPath = Vec::new();
+        for sub_path in queue.iter_mut() {
+            last_path.append(&mut sub_path.path);
+        }
 
-        if sub_path.last < self.len() {
-            sub_path.path.extend_from_slice(&self[sub_path.last..]);
+        let last = queue.last().unwrap().last;
+        if last < self.len() {
+            last_path.extend_from_slice(&self[last..]);
         }
 
         let i0 = anchors.first().unwrap().id;
         if i0 > 0 {
-            sub_path.path.extend_from_slice(&self[..i0]);
+            last_path.extend_from_slice(&self[..i0]);
         }
 
-        contours.push(sub_path.path);
+        contours.push(last_path);
 
         Some(contours)
     }
-- 
2.43.0


From 5f0dde9af2b806bfd2ea6a099ee043e8a1738673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 18/29] fix: contour decomposition sees that the greatest
 vertex is repeated

---
 iOverlay/src/core/divide.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index 164de38..7a0d909 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -57,6 +57,10 @@ impl ContourDecomposition for IntContour {
             p0 = idp.point;
         }
 
+        if n > 0 {
+            anchors.extend_from_slice(&id_points[id_points.len() - n - 1..]);
+        }
+
         if anchors.is_empty() {
             return None;
         }
-- 
2.43.0


From 21e2f73f2670d850ade8e0dc1eb3c61866e942b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 19/29] hook: plain-argument access to crossing, grid, ordering
 and nearest-edge code under cfg verif_*

---
 iOverlay/src/lib.rs               | 19 +++++++++++++++++-
 iOverlay/src/split/mod.rs         |  7 ++++++-
 iOverlay/src/split/verif_cross.rs | 33 +++++++++++++++++++++++++++++++
 iOverlay/src/split/verif_grid.rs  | 33 +++++++++++++++++++++++++++++++
 iOverlay/src/verif_near.rs        | 12 +++++++++++
 iOverlay/src/verif_order.rs       | 24 ++++++++++++++++++++++
 6 files changed, 126 insertions(+), 2 deletions(-)
 create mode 100644 iOverlay/src/split/verif_cross.rs
 create mode 100644 iOverlay/src/split/verif_grid.rs
 create mode 100644 iOverlay/src/verif_near.rs
 create mode 100644 iOverlay/src/verif_order.rs

diff --git a/iOverlay/src/lib.rs b/iOverlay/src/lib.rs
index 844e74d..9a16172 100644
--- a/iOverlay/src/lib.rs
+++ b/iOverlay/src/lib.rs
@@ -188,6 +188,9 @@
 //! ```
 
 
+// the cfg names verif_* guard verification hooks
+#![allow(unexpected_cfgs)]
+
 pub mod mesh;
 pub mod fill;
 pub mod core;
@@ -203,4 +206,18 @@ pub(crate) mod util;
 
 
 pub use i_float;
-pub use i_shape;
\ No newline at end of file
+pub use i_shape;
+
+// verification hooks, compiled only with RUSTFLAGS="--cfg verif_..."
+#[cfg(verif_cross)]
+#[doc(hidden)]
+pub use split::verif_cross;
+#[cfg(verif_grid)]
+#[doc(hidden)]
+pub use split::verif_grid;
+#[cfg(verif_near)]
+#[doc(hidden)]
+pub mod verif_near;
+#[cfg(verif_order)]
+#[doc(hidden)]
+pub mod verif_order;
diff --git a/iOverlay/src/split/mod.rs b/iOverlay/src/split/mod.rs
index 394056c..39c35d4 100644
--- a/iOverlay/src/split/mod.rs
+++ b/iOverlay/src/split/mod.rs
@@ -7,4 +7,9 @@ mod solver_tree;
 mod snap_radius;
 mod line_mark;
 mod grid_layout;
-mod solver_fragment;
\ No newline at end of file
+mod solver_fragment;
+
+#[cfg(verif_cross)]
+pub mod verif_cross;
+#[cfg(verif_grid)]
+pub mod verif_grid;
diff --git a/iOverlay/src/split/verif_cross.rs b/iOverlay/src/split/verif_cross.rs
new file mode 100644
index 0000000..6d55163
--- /dev/null
+++ b/iOverlay/src/split/verif_cross.rs
@@ -0,0 +1,33 @@
+//! Verification hook (cfg verif_cross): the segment crossing solver with plain arguments.
+use crate::geom::x_segment::XSegment;
+use crate::split::cross_solver::{CrossSolver, CrossType};
+use i_float::int::point::IntPoint;
+
+/// 0 - crossing inside both, 1 - an end of the target, 2 - an end of the other, 3 - collinear
+pub struct Cross {
+    pub point: IntPoint,
+    pub kind: u8,
+    pub is_round: bool,
+}
+
+pub fn cross(target: [IntPoint; 2], other: [IntPoint; 2], radius: i64) -> Option<Cross> {
+    let t = XSegment { a: target[0], b: target[1] };
+    let o = XSegment { a: other[0], b: other[1] };
+    let r = CrossSolver::cross(&t, &o, radius)?;
+    let kind = match r.cross_type {
+        CrossType::Pure => 0,
+        CrossType::TargetEnd => 1,
+        CrossType::OtherEnd => 2,
+        CrossType::Overlay => 3,
+    };
+    Some(Cross { point: r.point, kind, is_round: r.is_round })
+}
+
+/// which ends lie strictly inside the opposite segment: target a, target b, other a, other b
+pub fn collinear(target: [IntPoint; 2], other: [IntPoint; 2]) -> [bool; 4] {
+    use crate::split::cross_solver::EndMask;
+    let t = XSegment { a: target[0], b: target[1] };
+    let o = XSegment { a: other[0], b: other[1] };
+    let m = CrossSolver::collinear(&t, &o);
+    [m.is_target_a(), m.is_target_b(), m.is_other_a(), m.is_other_b()]
+}
diff --git a/iOverlay/src/split/verif_grid.rs b/iOverlay/src/split/verif_grid.rs
new file mode 100644
index 0000000..88a11a6
--- /dev/null
+++ b/iOverlay/src/split/verif_grid.rs
@@ -0,0 +1,33 @@
+//! Verification hook (cfg verif_grid): the fragment grid with plain arguments and results.
+use crate::geom::x_segment::XSegment;
+use crate::split::grid_layout::{FragmentBuffer, GridLayout};
+use i_float::int::point::IntPoint;
+use i_float::int::rect::IntRect;
+
+pub struct Cell {
+    /// left border of the column
+    pub x: i32,
+    /// index of the segment and the box of its part in this column
+    pub fragments: Vec<(usize, IntRect)>,
+    /// vertical segments on the left border of the column: index and range
+    pub on_border: Vec<(usize, i32, i32)>,
+}
+
+/// the columns of the grid a list of segments (sorted, a < b) is put in, or None when no grid is used
+pub fn columns(segments: &[[IntPoint; 2]]) -> Option<Vec<Cell>> {
+    let list: Vec<XSegment> = segments.iter().map(|s| XSegment { a: s[0], b: s[1] }).collect();
+    let layout = GridLayout::new(list.iter().copied(), list.len())?;
+    let mut buffer = FragmentBuffer::new(layout);
+    buffer.init_fragment_buffer(list.iter().copied());
+    for (i, s) in list.iter().enumerate() {
+        buffer.add_segment(i, *s);
+    }
+    let cells = buffer.groups.iter().enumerate().map(|(i, group)| Cell {
+        x: buffer.layout.pos(i),
+        fragments: group.iter().map(|f| (f.index, f.rect.clone())).collect(),
+        on_border: buffer.on_border.get(&i)
+            .map(|v| v.iter().map(|b| (b.id, b.y_range.min, b.y_range.max)).collect())
+            .unwrap_or_default(),
+    }).collect();
+    Some(cells)
+}
diff --git a/iOverlay/src/verif_near.rs b/iOverlay/src/verif_near.rs
new file mode 100644
index 0000000..dc1548f
--- /dev/null
+++ b/iOverlay/src/verif_near.rs
@@ -0,0 +1,12 @@
+//! Verification hook (cfg verif_near): the angular choice of the next edge with plain arguments.
+use crate::core::nearest_vector::NearestVector;
+use i_float::int::point::IntPoint;
+
+/// index in `others` of the first direction met when turning from `a` around `c`
+pub fn nearest(c: IntPoint, a: IntPoint, others: &[IntPoint], clockwise: bool) -> usize {
+    let mut v = NearestVector::new(c, a, others[0], 0, clockwise);
+    for (i, p) in others.iter().enumerate().skip(1) {
+        v.add(*p, i);
+    }
+    v.best_id
+}
diff --git a/iOverlay/src/verif_order.rs b/iOverlay/src/verif_order.rs
new file mode 100644
index 0000000..3665109
--- /dev/null
+++ b/iOverlay/src/verif_order.rs
@@ -0,0 +1,24 @@
+//! Verification hook (cfg verif_order): the sweep orderings of segments with plain arguments.
+use crate::geom::v_segment::VSegment;
+use i_float::int::point::IntPoint;
+use std::cmp::Ordering;
+
+fn v(s: [IntPoint; 2]) -> VSegment {
+    VSegment { a: s[0], b: s[1] }
+}
+
+pub fn order(s: [IntPoint; 2], other: [IntPoint; 2]) -> Ordering {
+    v(s).cmp(&v(other))
+}
+
+pub fn under_segment(s: [IntPoint; 2], other: [IntPoint; 2]) -> bool {
+    v(s).is_under_segment(&v(other))
+}
+
+pub fn under_point(s: [IntPoint; 2], p: IntPoint) -> Ordering {
+    v(s).is_under_point_order(p)
+}
+
+pub fn by_angle(s: [IntPoint; 2], other: [IntPoint; 2]) -> Ordering {
+    v(s).cmp_by_angle(&v(other))
+}
-- 
2.43.0


From b69b71f4836aaa6c09475f00641c7b84e99af899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 20/29] fix: stroke keeps the band beside a turn when one of
 its sides is short

---
 iOverlay/src/mesh/stroke/builder_join.rs | 51 ++++++++++++++++--------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder_join.rs b/iOverlay/src/mesh/stroke/builder_join.rs
index baf87ee..edeb81a 100644
--- a/iOverlay/src/mesh/stroke/builder_join.rs
+++ b/iOverlay/src/mesh/stroke/builder_join.rs
@@ -25,23 +25,45 @@ pub(super) struct BevelJoinBuilder;
 
 impl BevelJoinBuilder {
     #[inline]
-    fn join_top<T: FloatNumber, P: FloatPointCompatible<T>>(
+    fn join<T: FloatNumber, P: FloatPointCompatible<T>>(
         s0: &Section<P, T>,
         s1: &Section<P, T>,
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::add_segment(&s0.b_top, &s1.a_top, adapter, segments);
+        let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
+        if cross_product > T::from_float(0.0) {
+            Self::join_inner_top(s0, s1, adapter, segments);
+            Self::add_segment(&s1.a_bot, &s0.b_bot, adapter, segments);
+        } else {
+            Self::add_segment(&s0.b_top, &s1.a_top, adapter, segments);
+            Self::join_inner_bot(s0, s1, adapter, segments);
+        }
+    }
+
+    // An inner join goes through the vertex: a straight one would cut out
+    // a part of the longer section, when the other section is short.
+
+    #[inline]
+    fn join_inner_top<T: FloatNumber, P: FloatPointCompatible<T>>(
+        s0: &Section<P, T>,
+        s1: &Section<P, T>,
+        adapter: &FloatPointAdapter<P, T>,
+        segments: &mut Vec<Segment<OffsetCountBoolean>>,
+    ) {
+        Self::add_segment(&s0.b_top, &s0.b, adapter, segments);
+        Self::add_segment(&s0.b, &s1.a_top, adapter, segments);
     }
 
     #[inline]
-    fn join_bot<T: FloatNumber, P: FloatPointCompatible<T>>(
+    fn join_inner_bot<T: FloatNumber, P: FloatPointCompatible<T>>(
         s0: &Section<P, T>,
         s1: &Section<P, T>,
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::add_segment(&s1.a_bot, &s0.b_bot, adapter, segments);
+        Self::add_segment(&s1.a_bot, &s0.b, adapter, segments);
+        Self::add_segment(&s0.b, &s0.b_bot, adapter, segments);
     }
 
     #[inline]
@@ -69,8 +91,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for BevelJoin
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::join_top(s0, s1, adapter, segments);
-        Self::join_bot(s0, s1, adapter, segments);
+        Self::join(s0, s1, adapter, segments);
     }
 
     #[inline]
@@ -124,8 +145,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
     ) {
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         if cross_product.abs() < T::from_float(0.0001) {
-            BevelJoinBuilder::join_top(s0, s1, adapter, segments);
-            BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+            BevelJoinBuilder::join(s0, s1, adapter, segments);
             return;
         }
 
@@ -137,7 +157,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
         if is_limited {
             let (pa, pb, ac, bc) = if turn {
-                BevelJoinBuilder::join_top(s0, s1, adapter, segments);
+                BevelJoinBuilder::join_inner_top(s0, s1, adapter, segments);
                 let (pa, pb, va, vb) = (s1.a_bot, s0.b_bot, s1.dir, s0.dir);
 
                 let ax = pa.x() - self.max_length * va.x();
@@ -150,7 +170,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
                 (pa, pb, ac, bc)
             } else {
-                BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+                BevelJoinBuilder::join_inner_bot(s0, s1, adapter, segments);
                 let (pa, pb, va, vb) = (s0.b_top, s1.a_top, s0.dir, s1.dir);
 
                 let ax = pa.x() + self.max_length * va.x();
@@ -185,10 +205,10 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
             }
         } else {
             let (pa, pb, va, vb) = if turn {
-                BevelJoinBuilder::join_top(s0, s1, adapter, segments);
+                BevelJoinBuilder::join_inner_top(s0, s1, adapter, segments);
                 (s1.a_bot, s0.b_bot, s1.dir, s0.dir)
             } else {
-                BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+                BevelJoinBuilder::join_inner_bot(s0, s1, adapter, segments);
                 (s0.b_top, s1.a_top, s0.dir, s1.dir)
             };
             match Miter::sharp(pa, pb, va, vb, adapter) {
@@ -244,8 +264,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
     ) {
         let dot_product = FloatPointMath::dot_product(&s0.dir, &s1.dir);
         if self.limit_dot_product < dot_product {
-            BevelJoinBuilder::join_top(s0, s1, adapter, segments);
-            BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+            BevelJoinBuilder::join(s0, s1, adapter, segments);
             return;
         }
 
@@ -256,11 +275,11 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
 
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         let (start, end, dir) = if cross_product > T::from_float(0.0) {
-            BevelJoinBuilder::join_top(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner_top(s0, s1, adapter, segments);
             let ortho = P::from_xy(s1.dir.y(), -s1.dir.x());
             (s1.a_bot, s0.b_bot, ortho)
         } else {
-            BevelJoinBuilder::join_bot(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner_bot(s0, s1, adapter, segments);
             let ortho = P::from_xy(-s0.dir.y(), s0.dir.x());
             (s0.b_top, s1.a_top, ortho)
         };
-- 
2.43.0


From 03c84a62e19167bd6989e550ae447c2bdea7d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 21/29] fix: round join of a reversal keeps its arc when
 rounding takes the cosine out of range

---
 iOverlay/src/mesh/stroke/builder_join.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/builder_join.rs b/iOverlay/src/mesh/stroke/builder_join.rs
index edeb81a..c965bc7 100644
--- a/iOverlay/src/mesh/stroke/builder_join.rs
+++ b/iOverlay/src/mesh/stroke/builder_join.rs
@@ -268,7 +268,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
             return;
         }
 
-        let angle = dot_product.to_f64().acos();
+        let angle = dot_product.to_f64().clamp(-1.0, 1.0).acos();
         let n = (angle * self.inv_ratio).round();
         let cnt = n as usize;
         let delta_angle = angle / n;
-- 
2.43.0


From e938d95de533828bdf01ea823fed99b6b3c78952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 22/29] fix: stroke makes room for custom caps that do not
 surround the end of the path

---
 iOverlay/src/mesh/stroke/builder_cap.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index b4bfe67..cddc23c 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -3,7 +3,6 @@ use std::marker::PhantomData;
 use i_float::adapter::FloatPointAdapter;
 use i_float::float::compatible::FloatPointCompatible;
 use i_float::float::number::FloatNumber;
-use i_float::float::rect::FloatRect;
 use i_float::float::vector::FloatPointMath;
 use crate::mesh::boolean::OffsetCountBoolean;
 use crate::mesh::stroke::section::Section;
@@ -110,14 +109,12 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
 
     #[inline]
     pub(super) fn additional_offset(&self) -> T {
-        if let Some(points) = &self.points {
-            if let Some(rect) = FloatRect::with_iter(points.iter()) {
-                rect.width() + rect.height()
-            } else {
-                T::from_float(0.0)
-            }
-        } else {
-            T::from_float(0.0)
+        // the farthest cap point from the end of the path
+        let mut max = T::from_float(0.0);
+        for p in self.points.iter().flatten() {
+            max = max.max(p.x().abs() + p.y().abs());
         }
+
+        max
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From e3ae750bc6b20686a8f40da9c0d0ec7955791e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 23/29] fix: stroke and outline build no segments of zero
 length

---
 iOverlay/src/mesh/outline/section.rs    |  4 +++-
 iOverlay/src/mesh/stroke/builder_cap.rs | 20 ++++++++++++++------
 iOverlay/src/mesh/stroke/section.rs     |  8 ++++++--
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/iOverlay/src/mesh/outline/section.rs b/iOverlay/src/mesh/outline/section.rs
index 5dc018c..60e572d 100644
--- a/iOverlay/src/mesh/outline/section.rs
+++ b/iOverlay/src/mesh/outline/section.rs
@@ -42,6 +42,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<
     fn add_section(&mut self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>) {
         let a_top = adapter.float_to_int(&section.a_top);
         let b_top = adapter.float_to_int(&section.b_top);
-        self.push(Segment::bold_subject_ab(a_top, b_top));
+        if a_top != b_top {
+            self.push(Segment::bold_subject_ab(a_top, b_top));
+        }
     }
 }
\ No newline at end of file
diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index cddc23c..8ce3db3 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -74,12 +74,16 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
                 let r = rotator.rotate(p);
                 let q = FloatPointMath::add(&r, &section.a);
                 let b = adapter.float_to_int(&q);
-                segments.push(Segment::bold_subject_ab(a, b));
-                a = b;
+                if a != b {
+                    segments.push(Segment::bold_subject_ab(a, b));
+                    a = b;
+                }
             }
         }
         let last = adapter.float_to_int(&section.a_bot);
-        segments.push(Segment::bold_subject_ab(a, last));
+        if a != last {
+            segments.push(Segment::bold_subject_ab(a, last));
+        }
     }
 
     pub(super) fn add_to_end(&self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>, segments: &mut Vec<Segment<OffsetCountBoolean>>) {
@@ -90,12 +94,16 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
                 let r = rotator.rotate(p);
                 let q = FloatPointMath::add(&r, &section.b);
                 let b = adapter.float_to_int(&q);
-                segments.push(Segment::bold_subject_ab(a, b));
-                a = b;
+                if a != b {
+                    segments.push(Segment::bold_subject_ab(a, b));
+                    a = b;
+                }
             }
         }
         let last = adapter.float_to_int(&section.b_top);
-        segments.push(Segment::bold_subject_ab(a, last));
+        if a != last {
+            segments.push(Segment::bold_subject_ab(a, last));
+        }
     }
 
     #[inline]
diff --git a/iOverlay/src/mesh/stroke/section.rs b/iOverlay/src/mesh/stroke/section.rs
index ddce88d..6540c4e 100644
--- a/iOverlay/src/mesh/stroke/section.rs
+++ b/iOverlay/src/mesh/stroke/section.rs
@@ -54,7 +54,11 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<
         let a_bot = adapter.float_to_int(&section.a_bot);
         let b_bot = adapter.float_to_int(&section.b_bot);
 
-        self.push(Segment::bold_subject_ab(b_top, a_top));
-        self.push(Segment::bold_subject_ab(a_bot, b_bot));
+        if a_top != b_top {
+            self.push(Segment::bold_subject_ab(b_top, a_top));
+        }
+        if a_bot != b_bot {
+            self.push(Segment::bold_subject_ab(a_bot, b_bot));
+        }
     }
 }
\ No newline at end of file
-- 
2.43.0


From a1e6aa5700e4deadccce8df0bb1bd4c647ecb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 24/29] fix: outline inner joins go through the vertex and
 outer bevels count as edges

---
 iOverlay/src/mesh/outline/builder.rs      |  2 +-
 iOverlay/src/mesh/outline/builder_join.rs | 46 +++++++++++++++++++----
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/iOverlay/src/mesh/outline/builder.rs b/iOverlay/src/mesh/outline/builder.rs
index e2be642..97ca2cc 100644
--- a/iOverlay/src/mesh/outline/builder.rs
+++ b/iOverlay/src/mesh/outline/builder.rs
@@ -47,7 +47,7 @@ impl<P: FloatPointCompatible<T> + 'static, T: FloatNumber + 'static> OutlineBuil
             }),
             LineJoin::Bevel => Box::new(Builder {
                 radius,
-                join_builder: BevelJoinBuilder {},
+                join_builder: BevelJoinBuilder::new(radius),
                 _phantom: Default::default(),
             }),
         };
diff --git a/iOverlay/src/mesh/outline/builder_join.rs b/iOverlay/src/mesh/outline/builder_join.rs
index 7fad3e1..12ffa90 100644
--- a/iOverlay/src/mesh/outline/builder_join.rs
+++ b/iOverlay/src/mesh/outline/builder_join.rs
@@ -21,17 +21,41 @@ pub(super) trait JoinBuilder<P: FloatPointCompatible<T>, T: FloatNumber> {
     fn additional_offset(&self, radius: T) -> T;
 }
 
-pub(super) struct BevelJoinBuilder;
+pub(super) struct BevelJoinBuilder {
+    expand: bool,
+}
 
 impl BevelJoinBuilder {
+    pub(super) fn new<T: FloatNumber>(radius: T) -> Self {
+        Self { expand: radius >= T::from_float(0.0) }
+    }
+
+    /// Joins sections on the outer side of a turn.
     #[inline]
-    fn join_weak<T: FloatNumber, P: FloatPointCompatible<T>>(
+    fn join_outer<T: FloatNumber, P: FloatPointCompatible<T>>(
         s0: &Section<P, T>,
         s1: &Section<P, T>,
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::add_weak_segment(&s0.b_top, &s1.a_top, adapter, segments);
+        let ia = adapter.float_to_int(&s0.b_top);
+        let ib = adapter.float_to_int(&s1.a_top);
+        if ia != ib {
+            segments.push(Segment::bold_subject_ab(ia, ib));
+        }
+    }
+
+    /// Joins sections on the inner side of a turn. The join goes through the vertex:
+    /// a straight one would spoil the other sections nearby, when the sections are short.
+    #[inline]
+    fn join_inner<T: FloatNumber, P: FloatPointCompatible<T>>(
+        s0: &Section<P, T>,
+        s1: &Section<P, T>,
+        adapter: &FloatPointAdapter<P, T>,
+        segments: &mut Vec<Segment<OffsetCountBoolean>>,
+    ) {
+        Self::add_weak_segment(&s0.b_top, &s0.b, adapter, segments);
+        Self::add_weak_segment(&s0.b, &s1.a_top, adapter, segments);
     }
 
     #[inline]
@@ -59,7 +83,13 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for BevelJoin
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
-        Self::join_weak(s0, s1, adapter, segments);
+        let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
+        let turn = cross_product >= T::from_float(0.0);
+        if turn == self.expand {
+            Self::join_inner(s0, s1, adapter, segments);
+        } else {
+            Self::join_outer(s0, s1, adapter, segments);
+        }
     }
 
     #[inline]
@@ -118,7 +148,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         let turn = cross_product >= T::from_float(0.0);
         if turn == self.expand {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner(s0, s1, adapter, segments);
             return
         }
 
@@ -130,7 +160,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoin
 
         let sq_len = ia.sqr_distance(ib);
         if sq_len < 4 {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_outer(s0, s1, adapter, segments);
             return
         }
 
@@ -225,13 +255,13 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
         let cross_product = FloatPointMath::cross_product(&s0.dir, &s1.dir);
         let turn = cross_product >= T::from_float(0.0);
         if turn == self.expand {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_inner(s0, s1, adapter, segments);
             return
         }
 
         let dot_product = FloatPointMath::dot_product(&s0.dir, &s1.dir);
         if self.limit_dot_product < dot_product {
-            BevelJoinBuilder::join_weak(s0, s1, adapter, segments);
+            BevelJoinBuilder::join_outer(s0, s1, adapter, segments);
             return;
         }
 
-- 
2.43.0


From 23c953b32c9e9fa6a7322e0b4ac55754c5871414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 25/29] fix: round join of a needle in an outline keeps its arc
 when rounding takes the cosine out of range

---
 iOverlay/src/mesh/outline/builder_join.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/outline/builder_join.rs b/iOverlay/src/mesh/outline/builder_join.rs
index 12ffa90..f7c2061 100644
--- a/iOverlay/src/mesh/outline/builder_join.rs
+++ b/iOverlay/src/mesh/outline/builder_join.rs
@@ -265,7 +265,7 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoin
             return;
         }
 
-        let angle = dot_product.to_f64().acos();
+        let angle = dot_product.to_f64().clamp(-1.0, 1.0).acos();
         let n = (angle * self.inv_ratio).round();
         let cnt = n as usize;
         let delta_angle = angle / n;
-- 
2.43.0


From 219a8899273b91905231b4ae67f50e93265ebc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 26/29] fix: stroke of negative width is empty

---
 iOverlay/src/mesh/stroke/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index c277654..bacd261 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -79,7 +79,7 @@ where
             return vec![];
         }
 
-        let r = T::from_float(0.5 * style.width.to_f64());
+        let r = T::from_float(0.5 * style.width.to_f64().max(0.0));
         let builder = StrokeBuilder::new(style);
         let a = builder.additional_offset(r);
 
-- 
2.43.0


From 99bc57628ac131e95364a0c24021949fe192baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 27/29] fix: splitting with the absolute precision ends on
 nearly coincident segments

With a fixed radius the segments can exchange the same rounded crossings forever; after eight passes the radius grows.
---
 iOverlay/src/core/solver.rs       |  2 +-
 iOverlay/src/split/snap_radius.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/core/solver.rs b/iOverlay/src/core/solver.rs
index c66abba..7aba505 100644
--- a/iOverlay/src/core/solver.rs
+++ b/iOverlay/src/core/solver.rs
@@ -37,7 +37,7 @@ pub struct Precision {
 
 impl Precision {
     /// Absolute precision with no progression.
-    /// (Radius remains at `2^0 = 1`)
+    /// (Radius remains at `2^0 = 1`, unless splitting does not settle for many passes)
     pub const ABSOLUTE: Precision = Self {
         start: 0,
         progression: 0,
diff --git a/iOverlay/src/split/snap_radius.rs b/iOverlay/src/split/snap_radius.rs
index 59c2dad..755fe26 100644
--- a/iOverlay/src/split/snap_radius.rs
+++ b/iOverlay/src/split/snap_radius.rs
@@ -3,11 +3,18 @@ use crate::split::solver::SplitSolver;
 pub(super) struct SnapRadius {
     current: usize,
     step: usize,
+    passes: usize,
 }
 
 impl SnapRadius {
+    /// With a fixed radius nearly coincident segments can exchange the same rounded crossings forever,
+    /// so after this many passes the radius starts to grow.
+    const MAX_FIXED_PASSES: usize = 8;
+
     pub(super) fn increment(&mut self) {
-        self.current = 60.min(self.current + self.step);
+        self.passes += 1;
+        let step = if self.passes > Self::MAX_FIXED_PASSES { self.step.max(1) } else { self.step };
+        self.current = 60.min(self.current + step);
     }
 
     pub(super) fn radius(&self) -> i64 {
@@ -20,6 +27,7 @@ impl SplitSolver {
         SnapRadius {
             current: self.solver.precision.start,
             step: self.solver.precision.progression,
+            passes: 0,
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 3296ce7e9b347253cfaf90ad889c6927e9d9b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 28/29] fix: stroke respects the minimal area of its filter

---
 iOverlay/src/mesh/stroke/offset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index bacd261..7e0b34c 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -101,8 +101,10 @@ where
             builder.build(path, is_closed_path, &adapter, &mut segments);
         }
 
+        let int_min_area = adapter.sqr_float_to_int(filter.min_area);
+
         let shapes = OverlayGraph::offset_graph_with_solver(segments, Default::default())
-            .extract_offset(main_direction, 0);
+            .extract_offset(main_direction, int_min_area);
 
         let mut float = shapes.to_float(&adapter);
 
-- 
2.43.0


From 1abbcdb2f305b227d9f396203bec62f786e89824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:24 +0000
Subject: [PATCH 29/29] fix: the snap radius grows faster while nearly
 coincident segments keep splitting each other

---
 iOverlay/src/split/snap_radius.rs     | 11 ++++++++++-
 iOverlay/src/split/solver_fragment.rs |  2 +-
 iOverlay/src/split/solver_list.rs     |  2 +-
 iOverlay/src/split/solver_tree.rs     |  2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/iOverlay/src/split/snap_radius.rs b/iOverlay/src/split/snap_radius.rs
index 755fe26..36ea1f0 100644
--- a/iOverlay/src/split/snap_radius.rs
+++ b/iOverlay/src/split/snap_radius.rs
@@ -4,6 +4,7 @@ pub(super) struct SnapRadius {
     current: usize,
     step: usize,
     passes: usize,
+    count: usize,
 }
 
 impl SnapRadius {
@@ -11,8 +12,15 @@ impl SnapRadius {
     /// so after this many passes the radius starts to grow.
     const MAX_FIXED_PASSES: usize = 8;
 
-    pub(super) fn increment(&mut self) {
+    /// `count` is the number of segments after the pass
+    pub(super) fn increment(&mut self, count: usize) {
         self.passes += 1;
+        // After the first pass few segments should be left to split. When their number keeps growing,
+        // nearly coincident segments split each other exponentially, so the radius has to grow faster.
+        if self.passes > 1 && count > 64 && count > self.count + self.count / 2 {
+            self.step = 2 * self.step.max(1) * (count / self.count.max(1)).max(2);
+        }
+        self.count = count;
         let step = if self.passes > Self::MAX_FIXED_PASSES { self.step.max(1) } else { self.step };
         self.current = 60.min(self.current + step);
     }
@@ -28,6 +36,7 @@ impl SplitSolver {
             current: self.solver.precision.start,
             step: self.solver.precision.progression,
             passes: 0,
+            count: 0,
         }
     }
 }
\ No newline at end of file
diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 88a2a4d..a177ed9 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -51,7 +51,7 @@ impl SplitSolver {
 
             marks.clear();
 
-            snap_radius.increment();
+            snap_radius.increment(segments.len());
         }
 
         segments
diff --git a/iOverlay/src/split/solver_list.rs b/iOverlay/src/split/solver_list.rs
index ceb2091..4506dda 100644
--- a/iOverlay/src/split/solver_list.rs
+++ b/iOverlay/src/split/solver_list.rs
@@ -40,7 +40,7 @@ impl SplitSolver {
 
             segments = self.apply(&mut marks, segments, need_to_fix);
 
-            snap_radius.increment();
+            snap_radius.increment(segments.len());
 
             if need_to_fix && segments.len() > 1 && !self.solver.is_list_split(&segments) {
                 // finish with tree solver if edges is become large
diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index e347321..a9a7ba1 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -79,7 +79,7 @@ impl SplitSolver {
 
             marks.clear();
 
-            snap_radius.increment();
+            snap_radius.increment(segments.len());
         }
 
         segments
-- 
2.43.0

