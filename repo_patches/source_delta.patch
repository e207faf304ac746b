From 5d3bf0570e2a2b9b0f0d77ccf6529e7f43c5678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 01/23] hook: cfg(gpf_mc) override of the random insertion
 order

---
 src/lib.rs                  |  3 +++
 src/mc_hook.rs              | 24 ++++++++++++++++++++++++
 src/triangle/tetrahedron.rs |  2 ++
 3 files changed, 29 insertions(+)
 create mode 100644 src/mc_hook.rs

diff --git a/src/lib.rs b/src/lib.rs
index 1ffc260..b3f5e2a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,12 +6,15 @@
 #![feature(allocator_api)]
 #![feature(portable_simd)]
 #![feature(let_chains)]
+#![allow(unexpected_cfgs)]
 
 use itertools::Itertools;
 
 pub mod disjoint_set;
 pub mod graphcut;
 pub mod math;
+#[cfg(gpf_mc)]
+pub mod mc_hook;
 pub mod mesh;
 pub mod polygonlization;
 pub mod predicates;
diff --git a/src/mc_hook.rs b/src/mc_hook.rs
new file mode 100644
index 0000000..4679f37
--- /dev/null
+++ b/src/mc_hook.rs
@@ -0,0 +1,24 @@
+//! Verification hook, compiled only with `--cfg gpf_mc`.
+//!
+//! Lets a model checker choose the insertion order that is otherwise random.
+use std::cell::RefCell;
+
+thread_local! {
+    static INSERTION_ORDER: RefCell<Option<Vec<usize>>> = const { RefCell::new(None) };
+}
+
+/// Sets (or clears) the point insertion order for the current thread.
+pub fn set_insertion_order(order: Option<Vec<usize>>) {
+    INSERTION_ORDER.with(|o| *o.borrow_mut() = order);
+}
+
+/// Replaces `inds` by the chosen order if one of the same length is set.
+pub(crate) fn override_order(inds: &mut [usize]) {
+    INSERTION_ORDER.with(|o| {
+        if let Some(order) = o.borrow().as_ref() {
+            if order.len() == inds.len() {
+                inds.copy_from_slice(order);
+            }
+        }
+    });
+}
diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 6f66c17..de7cfed 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1115,6 +1115,8 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
     let mut mesh = TetMesh::new(points);
     let mut sorted_pt_inds = Vec::from_iter(0..mesh.n_points);
     sorted_pt_inds.shuffle(&mut rand::thread_rng());
+    #[cfg(gpf_mc)]
+    crate::mc_hook::override_order(&mut sorted_pt_inds);
     const SORT_OPTION: SortOption = SortOption {
         threshold: 64,
         hilbert_order: 52,
-- 
2.43.0


From 4b9b71e99cc5ae4d87222c02b63462988380e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 02/23] fix: refresh push-relabel labels so is_sink is a
 minimum cut

---
 src/graphcut/push_relabel_fifo.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/graphcut/push_relabel_fifo.rs b/src/graphcut/push_relabel_fifo.rs
index fb13a92..4d8a3be 100644
--- a/src/graphcut/push_relabel_fifo.rs
+++ b/src/graphcut/push_relabel_fifo.rs
@@ -220,12 +220,16 @@ where
     fn find_max_flow(&mut self) {
         self.global_relabel();
         while !self.queue.is_empty() {
-            let v = self.queue.pop_front().unwrap();
-            self.discharge(v);
-            if self.relabel_progress >= self.relabel_threshold * 2 {
-                self.relabel_progress = 0;
-                self.global_relabel();
+            while let Some(v) = self.queue.pop_front() {
+                self.discharge(v);
+                if self.relabel_progress >= self.relabel_threshold * 2 {
+                    self.relabel_progress = 0;
+                    self.global_relabel();
+                }
             }
+            // `is_sink` needs exact labels: a vertex that lost its last path to
+            // the sink may still carry a stale label below `not_reached`.
+            self.global_relabel();
         }
     }
 
-- 
2.43.0


From 259d23a3202c07f3fd58b479dd44083b8d60dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 03/23] fix: report nodes left free by GraphCut on the source
 side

---
 src/graphcut/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graphcut/mod.rs b/src/graphcut/mod.rs
index 1b94148..c10e09e 100644
--- a/src/graphcut/mod.rs
+++ b/src/graphcut/mod.rs
@@ -514,6 +514,12 @@ impl GraphCut {
                 current_node = INVALID_IND;
             }
         }
+        // free nodes belong to neither search tree, put all of them on the source side
+        for (is_sink, &parent) in self.is_sink.iter_mut().zip(&self.parent) {
+            if parent == INVALID_IND {
+                *is_sink = false;
+            }
+        }
         return self.flow;
     }
 }
-- 
2.43.0


From b380d3c2e918d31699964faf76f30bb27519587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 04/23] fix: use the x tail of c in the exact stage of orient3d

---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index d344b12..fff11b1 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -729,7 +729,7 @@ fn orient3d_adapt<A: Allocator + Copy>(
         bdxtail, cdytail, cdztail, cdz, adz, adytail, adztail, &mut fin, allocator,
     );
     helper2(
-        cdztail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
+        cdxtail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
     );
 
     if adztail != 0.0 {
-- 
2.43.0


From 834d0a2a207a6c6d4e86f0966355ebcb31dc04a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 05/23] fix: interval numbers report the right sign and
 multiply correctly

---
 src/predicates/interval_number.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index ccda78c..fa8d0ba 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -8,7 +8,7 @@ const SIGN_HIGH_MASK: u64x2 = u64x2::from_array([(1_u64 << 63), 0u64]);
 
 #[derive(Clone)]
 pub struct IntervalNumber {
-    /// [high; low]
+    /// [high; -low]
     data: f64x2,
 }
 
@@ -16,7 +16,7 @@ impl IntervalNumber {
     #[inline(always)]
     pub fn new(low: f64, high: f64) -> Self {
         Self {
-            data: f64x2::from_array([high, low]),
+            data: f64x2::from_array([high, -low]),
         }
     }
 }
@@ -47,12 +47,12 @@ impl IntervalNumber {
 
     #[inline(always)]
     pub fn positive(&self) -> bool {
-        self.data[0] < 0.0
+        self.data[1] < 0.0
     }
 
     #[inline(always)]
     pub fn negative(&self) -> bool {
-        self.data[1] < 0.0
+        self.data[0] < 0.0
     }
 
     #[inline(always)]
@@ -99,7 +99,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
         0 => {
             let llhh = a.data * b.data;
             let lhhl = a.data * b.data.reverse();
-            [lhhl.reduce_max(), llhh.reduce_max()].into()
+            [llhh.reduce_max(), lhhl.reduce_max()].into()
         }
 
         1 => a.data.reverse() * f64x2::from([b.data[1], b.data[1]]),
@@ -120,7 +120,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
             a.data * f64x2::from_bits(bi).reverse()
         }
 
-        8 => (f64x2::from([a.data[0]; 2]) * b.data).reverse(),
+        8 => f64x2::from([a.data[0]; 2]) * b.data,
 
         9 => {
             let mut ai = a.data.to_bits();
-- 
2.43.0


From 501a874679ebc68c3ce376d8078573b26b02c5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 06/23] fix: expansion_sum adds every component of its second
 operand

---
 src/predicates/predicates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index fff11b1..81b895d 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -245,8 +245,8 @@ pub fn expansion_sum<A: Allocator>(earr: &[f64], farr: &[f64], allocator: A) ->
         r
     }));
     h_arr.push(q);
-    earr.iter().enumerate().skip(1).for_each(|(start, &e)| {
-        q = e;
+    farr.iter().enumerate().skip(1).for_each(|(start, &f)| {
+        q = f;
         for h in &mut h_arr[start..] {
             let (qnew, enew) = two_sum(q, *h);
             q = qnew;
-- 
2.43.0


From bd1751b068d2ef370a378fc4ff91795d09cee6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 07/23] fix: less_than reverses the sign when it swaps its
 arguments

The comparisons with the explicit point (or the LPI of a TPI/LPI pair) in the
other position returned the unreversed sign, and the interval stage compared
the y and z coordinates with the x coordinate of the second point.
---
 src/predicates/less_than.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 0219214..091bbaa 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -1,20 +1,20 @@
 use std::alloc::Allocator;
 
 use super::{
-    double_to_sign, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
+    double_to_sign, sign_reverse, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
     ImplicitPointTPI, Orientation, Point3D,
 };
 
 pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<0>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_x_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_x_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_x_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_x_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_x_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_x_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_x_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_x_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_x_tt(pa, pb, bump),
     }
 }
@@ -22,13 +22,13 @@ pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<1>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_y_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_y_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_y_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_y_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_y_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_y_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_y_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_y_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_y_tt(pa, pb, bump),
     }
 }
@@ -36,13 +36,13 @@ pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_z<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<2>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_z_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_z_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_z_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_z_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_z_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_z_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_z_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_z_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_z_tt(pa, pb, bump),
     }
 }
@@ -449,9 +449,9 @@ fn less_than_ii<
         let det = if AXIS == 0 {
             less_than_ii_impl(&pa_dynamic.x, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
         } else if AXIS == 1 {
-            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.y, &pb_dynamic.d)
         } else {
-            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.z, &pb_dynamic.d)
         };
 
         if det.not_zero() {
-- 
2.43.0


From c034c15c66f90105ad148ad2272a3b9ee1876e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 08/23] fix: triangulating fewer than three points gives no
 triangles

---
 src/triangle/triangle.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 8ae211a..f45e023 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -12,6 +12,9 @@ pub fn triangulate<A: Allocator + Copy>(
     bump: A,
 ) -> Vec<usize, A> {
     let n_points = points.len() >> 1;
+    if n_points < 3 {
+        return Vec::new_in(bump);
+    }
     let mut sorted_pt_inds = Vec::with_capacity_in(n_points, bump);
     sorted_pt_inds.extend(0..n_points);
     sorted_pt_inds.sort_unstable_by(|&i, &j| {
-- 
2.43.0


From a8d211146fa7c4297c28b5160c63fb70e3813043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 09/23] fix: mark the completed part of a segment that runs
 into a vertex

---
 src/triangle/triangle.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index f45e023..dbc4214 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -1160,18 +1160,17 @@ fn constrained_edge<A: Allocator + Copy>(
             break;
         }
     }
-    if collision {
-        if !scout_segment(m, ghost, &mut fixup_tri, endpoint2, mark, bump) {
-            constrained_edge(m, ghost, &mut fixup_tri, endpoint2, mark, vertex_map, bump);
-        }
+    // The edge that has been completed starts or ends at `endpoint1`.
+    let completed = if dest(&m.triangles, &fixup_tri) == endpoint1 {
+        twin(mark)
     } else {
-        let v = dest(&m.triangles, &fixup_tri);
-        set_mark(
-            &mut m.triangles,
-            &fixup_tri,
-            if v == endpoint2 { mark } else { twin(mark) },
-            true,
-        );
+        mark
+    };
+    set_mark(&mut m.triangles, &fixup_tri, completed, true);
+    // If there was a collision with an interceding vertex, insert the remainder
+    // of the segment.
+    if collision && !scout_segment(m, ghost, &mut fixup_tri, endpoint2, mark, bump) {
+        constrained_edge(m, ghost, &mut fixup_tri, endpoint2, mark, vertex_map, bump);
     }
 }
 
-- 
2.43.0


From 5175b40a6d46d470196430eb99e89bf44c1354ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 10/23] fix: choose the first tetrahedron by exact tests, so
 close points and thin sets are not dropped

---
 src/triangle/tetrahedron.rs | 95 ++++++++++---------------------------
 1 file changed, 24 insertions(+), 71 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index de7cfed..10e7bd8 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -3,7 +3,6 @@ use std::alloc::Allocator;
 use hashbrown::HashMap;
 
 use crate::{
-    math::{cross, norm, sub},
     predicates::{self, double_to_sign, sign_reverse, Orientation},
     INVALID_IND,
 };
@@ -1100,6 +1099,27 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
     return true;
 }
 
+/// Moves four points that are not coplanar to the front and returns their orientation.
+/// Returns `None` if all points are coplanar.
+fn first_tetrahedron(points: &[f64], indices: &mut [usize], bump: &Bump) -> Option<f64> {
+    let p0 = point(points, *indices.first()?);
+    let i = (1..indices.len()).find(|&i| point(points, indices[i]) != p0)?;
+    indices.swap(1, i);
+    let p1 = point(points, indices[1]);
+    let i = (2..indices.len())
+        .find(|&i| predicates::mis_alignment(p0, p1, point(points, indices[i]), bump))?;
+    indices.swap(2, i);
+    let p2 = point(points, indices[2]);
+    for i in 3..indices.len() {
+        let ori = predicates::orient3d(p0, p1, p2, point(points, indices[i]), bump);
+        if ori != 0.0 {
+            indices.swap(3, i);
+            return Some(ori);
+        }
+    }
+    None
+}
+
 pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
     let cmp = |x: &&f64, y: &&f64| x.partial_cmp(y).unwrap();
     let bbox = [
@@ -1123,7 +1143,6 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         hilbert_limit: 8,
         ratio: 0.125,
     };
-    const EPS: f64 = 1e-6;
     let mut n_group = 1;
     brio_multiscale_sort(
         points,
@@ -1133,75 +1152,10 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         &mut n_group,
     );
 
-    let mut temp_vec3 = [0.0, 0.0, 0.0];
-    let bbox_size1 = {
-        sub(&bbox[3..6], &bbox, &mut temp_vec3);
-        norm(&temp_vec3)
+    let mut bump = Bump::new();
+    let Some(ori) = first_tetrahedron(points, &mut sorted_pt_inds, &bump) else {
+        return mesh;
     };
-    let bbox_size2 = bbox_size1 * bbox_size1;
-    let bbox_size3 = bbox_size2 * bbox_size1;
-    let mut i = 1;
-    {
-        let p0 = point(points, sorted_pt_inds[0]);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
-            sub(p0, pi, &mut temp_vec3);
-            if norm(&temp_vec3) / bbox_size1 < EPS {
-                i += 1;
-            } else {
-                break;
-            }
-        }
-        if i > 1 {
-            if i == mesh.n_points {
-                return mesh;
-            }
-            sorted_pt_inds.swap(1, i);
-        }
-
-        i = 2;
-        let p1 = point(points, sorted_pt_inds[1]);
-        sub(p1, p0, &mut temp_vec3);
-        while i < mesh.n_points {
-            let pi = point(points, sorted_pt_inds[i]);
-            let mut v2 = [0.0; 3];
-            sub(pi, p0, &mut v2);
-            let mut n = [0.0; 3];
-            cross(&temp_vec3, &v2, &mut n);
-            if norm(&n) / bbox_size2 < EPS {
-                i += 1;
-            } else {
-                break;
-            }
-        }
-        if i > 2 {
-            if i == mesh.n_points {
-                return mesh;
-            };
-            sorted_pt_inds.swap(2, i);
-        }
-    }
-    i = 3;
-    let mut ori = 0.0;
-    while i < mesh.n_points {
-        ori = predicates::orient3d_fast(
-            point(points, sorted_pt_inds[0]),
-            point(points, sorted_pt_inds[1]),
-            point(points, sorted_pt_inds[2]),
-            point(points, sorted_pt_inds[i]),
-        );
-        if ori.abs() / bbox_size3 < EPS {
-            i += 1;
-        } else {
-            break;
-        }
-    }
-    if i > 3 {
-        if i == mesh.n_points {
-            return mesh;
-        }
-        sorted_pt_inds.swap(3, i);
-    }
 
     // follow the right rule
     if ori > 0.0 {
@@ -1215,7 +1169,6 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         sorted_pt_inds[2],
         sorted_pt_inds[3],
     );
-    let mut bump = Bump::new();
     for i in 4..mesh.n_points {
         bump.reset();
         if !insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump) {
-- 
2.43.0


From 8303c68cc1082346337a932e8218d1613b0e9467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 11/23] fix: continue from a live tetrahedron after filling a
 very large cavity

---
 src/triangle/tetrahedron.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 10e7bd8..479b1f6 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1030,6 +1030,7 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
         }
     } else {
         // Fill a very large cavity with original neighboring searching method.
+        let first_new_tet = tets.tets.len();
         for oldtet in &cave_bdry_list {
             let mut neightet = tets.tets[oldtet.tet].nei[oldtet.ver].clone();
 
@@ -1060,7 +1061,7 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
         }
 
         // randomly pick a new tet
-        *searchtet = cave_bdry_list[f_out >> 1].clone();
+        searchtet.set(first_new_tet + (f_out >> 1), 11);
         tets.p2t[pid] = searchtet.tet;
 
         for mut oldtet in cave_bdry_list {
-- 
2.43.0


From 2ff052c8a4e2c3b62a7e99c46b3e0857baced5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 12/23] fix: remove_duplicates compares rounded points, and
 merges equal points with zero tolerance

Points that round to the same grid point but differ in their original
coordinates were kept apart, so the output held equal points. With a zero
tolerance the map had three entries per point and nothing was merged, and
an empty input panicked.
---
 src/polygonlization/mod.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index b6b2c16..e2066dc 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -16,23 +16,28 @@ fn point(points: &[f64], idx: usize) -> &[f64] {
 }
 
 pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>) {
-    if epsilon == 0.0 {
-        return (
-            Vec::from_iter(points.iter().map(|&x| x)),
-            Vec::from_iter(0..points.len()),
-        );
+    if points.is_empty() {
+        return (Vec::new(), Vec::new());
     }
-    let e = get_exponent(epsilon) - 1;
-    let base = 2.0f64.powi(e);
-    let approx_points = Vec::from_iter(points.iter().map(|x| (x / base).round() * base));
+    let approx_points = if epsilon == 0.0 {
+        points.to_vec()
+    } else {
+        let e = get_exponent(epsilon) - 1;
+        let base = 2.0f64.powi(e);
+        Vec::from_iter(points.iter().map(|x| (x / base).round() * base))
+    };
     let n_points = points.len() / 3;
     let mut indices = Vec::from_iter(0..n_points);
-    indices.sort_unstable_by(|&i, &j| point(points, i).partial_cmp(point(points, j)).unwrap());
+    indices.sort_unstable_by(|&i, &j| {
+        point(&approx_points, i)
+            .partial_cmp(point(&approx_points, j))
+            .unwrap()
+    });
     let mut pmap = vec![0usize; n_points];
     let mut out_pt_indices = vec![indices[0]];
     for k in 1..n_points {
         let (i, j) = (indices[k], indices[k - 1]);
-        if point(points, i) == point(points, j) {
+        if point(&approx_points, i) == point(&approx_points, j) {
             pmap[i] = out_pt_indices.len() - 1;
         } else {
             pmap[i] = out_pt_indices.len();
-- 
2.43.0


From d837fc432cd5f55c77543162cf18a11d5d14c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 13/23] fix: keep oppositely turned coplanar triangles when a
 cell is split

The intersection polygon is oriented like the splitting triangle, but was
compared with the orientation of each coplanar triangle, so triangles of
another shell facing the other way were dropped. The orientations of
coplanar triangles were also compared along different projection axes when
rounding broke a tie between the components of their normals.
---
 src/polygonlization/bsp_complex.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 441b926..a4909f6 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -265,14 +265,27 @@ impl BSPComplex {
             bump,
         );
 
+        // the axes of coplanar triangles may differ, so compare their orientations along one axis
+        let axis = self.tri_axes[tid];
+        let base_tri_ori = self.tri_orientations[tid];
+        let coplanar_orientation = |complex: &Self, coplanar_tid: usize| {
+            if complex.tri_axes[coplanar_tid] == axis {
+                complex.tri_orientations[coplanar_tid]
+            } else {
+                let [pa, pb, pc] = from_fn::<_, 3, _>(|i| {
+                    &complex.points[complex.triangle(coplanar_tid)[i]]
+                });
+                orient2d::orient2d_by_axis(pa, pb, pc, axis, bump)
+            }
+        };
+
         // save the orientation of the triangle for other coplanar triangles
         if coplanar_triangles.len() > 1 {
-            let base_tri_ori = self.tri_orientations[tid];
             for &vid in &cell_verts {
                 let ori = *self.vert_orientations[tid].get(&vid).unwrap();
                 for i in 0..coplanar_triangles.len() - 1 {
                     let coplanar_tid = coplanar_triangles[i];
-                    let coplanar_ori = self.tri_orientations[coplanar_tid];
+                    let coplanar_ori = coplanar_orientation(self, coplanar_tid);
                     if base_tri_ori == coplanar_ori {
                         self.vert_orientations[coplanar_tid].insert(vid, ori);
                     } else {
@@ -361,14 +374,16 @@ impl BSPComplex {
                 })
                 .collect_vec();
 
+            // the polygon is oriented like the splitting triangle, the other triangles may not be
             coplanar_triangles.retain(|&coplanar_tid| {
                 let coplanar_tri = triangle(coplanar_tid, &self.constraints);
                 let coplanar_pts = from_fn::<_, 3, _>(|i| &self.points[coplanar_tri[i]]);
                 is_triangle_intersects_poly(
                     &coplanar_pts,
                     &intersect_poly,
-                    self.tri_orientations[coplanar_tid],
-                    self.tri_axes[coplanar_tid],
+                    coplanar_orientation(self, coplanar_tid),
+                    base_tri_ori,
+                    axis,
                     bump,
                 )
             });
@@ -1852,7 +1867,8 @@ fn is_triangle_intersects_cell<A: Allocator + Copy>(
 fn is_triangle_intersects_poly<A: Allocator + Copy>(
     tri: &[&Point3D],
     poly: &[&Point3D],
-    base_ori: Orientation,
+    tri_ori: Orientation,
+    poly_ori: Orientation,
     axis: usize,
     alloc: A,
 ) -> bool {
@@ -1866,7 +1882,7 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
                     continue;
                 }
 
-                if ori == base_ori {
+                if ori == tri_ori {
                     has_inside = true;
                 } else {
                     all_poly_verts_inside[i] = false;
@@ -1888,7 +1904,7 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
                 if ori == Orientation::Zero {
                     continue;
                 }
-                if ori == base_ori {
+                if ori == poly_ori {
                     has_inside = true;
                 }
             }
-- 
2.43.0


From 6c5343f3375cf163dcffd2d2f8cfd6c4cd4006b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 14/23] fix: drop a vertex from collinear outline edges only if
 every face group does

Where another outline meets a vertex inside a straight edge, one face group
could keep the vertex and its neighbour leave it out, so the output mesh was
not watertight (e.g. two edges of different shells crossing at a point).
---
 src/polygonlization/bsp_complex.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index a4909f6..0880fac 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -897,7 +897,7 @@ impl BSPComplex {
             groups
         }));
 
-        Vec::from_iter(group_map.into_values().map(|indices| {
+        let group_outlines = Vec::from_iter(group_map.into_values().map(|indices| {
             bump.reset();
             let mut tid = INVALID_IND;
             let mut base_fid = FaceId::default();
@@ -923,6 +923,24 @@ impl BSPComplex {
                 max_comp_in_tri_normal(pa, pb, pc, &bump)
             };
 
+            (outline_groups, axis)
+        }));
+
+        // a vertex can be left out only if exactly two outline edges meet there: any other face
+        // group that uses the vertex would have to leave it out as well
+        let mut outline_edge_visited = vec![false; self.edge_data.len()];
+        let mut vert_valences = vec![0usize; self.vertex_data.len()];
+        for (eid, _) in group_outlines.iter().flat_map(|(o, _)| o.iter().flatten()) {
+            if !outline_edge_visited[*eid] {
+                outline_edge_visited[*eid] = true;
+                for vid in self.mesh.e_vertices(*eid) {
+                    vert_valences[vid] += 1;
+                }
+            }
+        }
+
+        Vec::from_iter(group_outlines.into_iter().map(|(outline_groups, axis)| {
+            bump.reset();
             (
                 Vec::from_iter(outline_groups.into_iter().map(|outline| {
                     self.merge_colinear_edges(
@@ -930,6 +948,7 @@ impl BSPComplex {
                         &mut edge_groups,
                         &mut edge_in_group,
                         &edge_face_groups,
+                        &vert_valences,
                         axis,
                         &bump,
                     )
@@ -1077,6 +1096,7 @@ impl BSPComplex {
         edge_groups: &mut Vec<EdgeGroup>,
         edge_in_group: &mut [usize],
         edge_face_groups: &[Vec<usize>],
+        vert_valences: &[usize],
         axis: usize,
         bump: A,
     ) -> Vec<VertexId> {
@@ -1095,7 +1115,7 @@ impl BSPComplex {
         let colinear = |ha: &(EdgeId, bool), hb: &(EdgeId, bool)| {
             let ea = ha.0;
             let eb = hb.0;
-            if edge_face_groups[ea] != edge_face_groups[eb] {
+            if edge_face_groups[ea] != edge_face_groups[eb] || vert_valences[end_vertex(ha)] != 2 {
                 return false;
             }
 
-- 
2.43.0


From 557097757ccba2e29debf97efc5fe239aff719c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 15/23] fix: insert a constraint into every tetrahedron it
 overlaps off its vertices

A tetrahedron with no vertex on the plane of a constraint was missed when the
sides of the constraint meet the section of the tetrahedron only at the
section's corners. Test instead whether a side of one of the two polygons
separates them.
---
 src/polygonlization/conforming_mesh.rs | 70 +++++++-------------------
 1 file changed, 18 insertions(+), 52 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 92ecc3d..1828485 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -164,24 +164,6 @@ struct IntersectInfo<A: Allocator + Copy> {
     visited: Vec<bool, A>,
 }
 
-#[inline(always)]
-fn vert_inner_segment_cross<A: Allocator + Copy>(
-    mesh: &TetMesh,
-    u1: usize,
-    u2: usize,
-    v1: usize,
-    v2: usize,
-    allocator: A,
-) -> bool {
-    inner_segments_cross(
-        mesh.point(u1),
-        mesh.point(u2),
-        mesh.point(v1),
-        mesh.point(v2),
-        allocator,
-    )
-}
-
 #[inline(always)]
 fn vert_inner_segment_cross_inner_triangle<A: Allocator + Copy>(
     mesh: &TetMesh,
@@ -883,43 +865,27 @@ fn constraint_intersect_empty<A: Allocator + Copy>(
     pos_vs: &[usize],
     bump: A,
 ) -> bool {
-    let mut all_cross = true;
-    for &nv in neg_vs {
-        if !all_cross {
-            break;
-        }
-        for &pv in pos_vs {
-            if !c
-                .iter()
-                .circular_tuple_windows()
-                .any(|(&va, &vb)| vert_inner_segment_cross(mesh, nv, pv, va, vb, bump))
-            {
-                all_cross = false;
-                break;
-            }
-        }
-    }
-
-    if all_cross {
-        return true;
-    }
-
-    for &nv in neg_vs {
-        for &pv in pos_vs {
-            if vert_inner_segment_cross_inner_triangle(mesh, nv, pv, c[0], c[1], c[2], bump) {
-                return true;
-            }
+    // The plane of the constraint cuts the tet in a convex polygon whose vertices are
+    // where the edges from "neg_vs" to "pos_vs" pierce the plane. The polygon and the
+    // constraint overlap unless the line of a side of one of them separates them.
+    let verts = &mesh.tets[tid].data;
+    for i in 0..4 {
+        let (fa, fb, fc) = (verts[(i + 1) & 3], verts[(i + 2) & 3], verts[(i + 3) & 3]);
+        let inner = double_to_sign(mesh.orient3d(verts[i], fa, fb, fc, bump));
+        if c.iter()
+            .all(|&v| double_to_sign(mesh.orient3d(v, fa, fb, fc, bump)) != inner)
+        {
+            return false;
         }
     }
 
-    for (&v1, &v2) in c.iter().circular_tuple_windows() {
-        for (&va, &vb, &vc) in mesh.tets[tid].data.iter().circular_tuple_windows() {
-            if vert_inner_segment_cross_inner_triangle(mesh, v1, v2, va, vb, vc, bump) {
-                return true;
-            }
-        }
-    }
-    return false;
+    !c.iter().circular_tuple_windows().any(|(&ca, &cb)| {
+        neg_vs.iter().all(|&nv| {
+            pos_vs
+                .iter()
+                .all(|&pv| mesh.orient3d(nv, pv, ca, cb, bump) <= 0.0)
+        })
+    })
 }
 
 fn interior_intersections<A: Allocator + Copy>(
-- 
2.43.0


From a68b1dfa775edbe139a1118ffb16be6d6bee54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:29 +0000
Subject: [PATCH 16/23] fix: merge output vertices whose rounded coordinates
 coincide

Distinct vertices of the complex may round to the same output point; the
output polygons were then triangulated with coincident vertices (endless loop
or out-of-range index). Use one output point, and drop the parts of a polygon
that lose their width.
---
 src/polygonlization/bsp_complex.rs | 91 ++++++++++++++----------------
 1 file changed, 43 insertions(+), 48 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 0880fac..f1dd2dd 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -780,69 +780,64 @@ impl BSPComplex {
         }
         let mut out_points = Vec::<f64>::new();
         let mut triangles = Vec::new();
+        // vertices which are distinct but have the same rounded coordinates become one point
+        let mut point_map = HashMap::<[u64; 3], usize>::new();
         let mut v_old_to_new = vec![INVALID_IND; self.vertex_data.len()];
-        let mut loop_vert_indices = vec![INVALID_IND; self.vertex_data.len()];
+        let mut local_indices = vec![INVALID_IND; self.vertex_data.len()];
 
         for (face_verts, axis) in self.merge_faces(kept_faces) {
             bump.reset();
-            let n_faces_verts = face_verts.iter().flatten().count();
-            let mut points_2d = Vec::with_capacity_in(n_faces_verts << 1, &bump);
-            let mut face_new_verts = Vec::with_capacity_in(n_faces_verts, &bump);
-            let mut segments = Vec::new_in(&bump);
+            let mut face_segments = Vec::new_in(&bump);
             for face_loop in &face_verts {
-                // loop vertex local indices
-                let mut loop_local = Vec::new_in(&bump);
+                let mut loop_new = Vec::with_capacity_in(face_loop.len(), &bump);
                 for &vid in face_loop {
-                    let mut new_vid = v_old_to_new[vid];
-                    if new_vid == INVALID_IND {
-                        new_vid = out_points.len() / 3;
-                        v_old_to_new[vid] = new_vid;
-                        out_points.extend(point(&explicit_points, vid.0));
+                    if v_old_to_new[vid] == INVALID_IND {
+                        let p = point(&explicit_points, vid.0);
+                        let key = from_fn(|i| (p[i] + 0.0).to_bits());
+                        v_old_to_new[vid] = *point_map.entry(key).or_insert_with(|| {
+                            out_points.extend(p);
+                            out_points.len() / 3 - 1
+                        });
                     }
-                    if loop_vert_indices[vid] == INVALID_IND {
-                        loop_vert_indices[vid] = points_2d.len() >> 1;
-                        points_2d.extend(project_point(point(&out_points, new_vid), axis));
-                        face_new_verts.push(new_vid);
-                    }
-
-                    loop_local.push(loop_vert_indices[vid]);
+                    loop_new.push(v_old_to_new[vid]);
                 }
-                segments.extend(
-                    loop_local
-                        .iter()
-                        .circular_tuple_windows()
-                        .map(|(&a, &b)| [a, b])
-                        .flatten(),
-                );
-
-                // reset
-                for &vid in face_loop {
-                    loop_vert_indices[vid] = INVALID_IND;
+                for (&a, &b) in loop_new.iter().circular_tuple_windows() {
+                    if a == b {
+                        continue;
+                    }
+                    // a part without width is bounded by a segment and its reverse
+                    if let Some(pos) = face_segments.iter().position(|s| *s == [b, a]) {
+                        face_segments.remove(pos);
+                    } else {
+                        face_segments.push([a, b]);
+                    }
                 }
             }
 
-            if face_verts.len() == 1 && face_verts[0].len() == 3 {
-                triangles.extend(face_new_verts);
+            if face_segments.len() == 3 {
+                let [a, b] = face_segments[0];
+                let c = face_segments[1..].iter().find(|s| s[0] == b).unwrap()[1];
+                triangles.extend([a, b, c]);
                 continue;
             }
 
-            let loop_areas = {
-                let mut start = 0;
-                Vec::from_iter(face_verts.iter().map(|l| {
-                    let end = start + l.len();
-                    let area = poly_area(&points_2d, &segments[(start << 1)..(end << 1)]);
-                    start = end;
-                    area
-                }))
-            };
-
-            let max_loop_idx = loop_areas
-                .iter()
-                .map(|v| v.abs())
-                .position_max_by(|a, b| a.partial_cmp(b).unwrap())
-                .unwrap();
+            let mut points_2d = Vec::with_capacity_in(face_segments.len() << 1, &bump);
+            let mut face_new_verts = Vec::with_capacity_in(face_segments.len(), &bump);
+            let mut segments = Vec::with_capacity_in(face_segments.len() << 1, &bump);
+            for &new_vid in face_segments.iter().flatten() {
+                if local_indices[new_vid] == INVALID_IND {
+                    local_indices[new_vid] = face_new_verts.len();
+                    points_2d.extend(project_point(point(&out_points, new_vid), axis));
+                    face_new_verts.push(new_vid);
+                }
+                segments.push(local_indices[new_vid]);
+            }
+            // reset
+            for &new_vid in &face_new_verts {
+                local_indices[new_vid] = INVALID_IND;
+            }
 
-            if loop_areas[max_loop_idx] < 0.0 {
+            if poly_area(&points_2d, &segments) < 0.0 {
                 for p in points_2d.chunks_mut(2) {
                     p.swap(0, 1);
                 }
-- 
2.43.0


From 276b53781f1f2590e6ab1fb153d7faf1a2db4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 17/23] fix: keep the outline of an output polygon that
 rounding makes self-intersecting

The triangulation of such a polygon could miss a boundary edge and left the
output open. Use a fan then.
---
 src/polygonlization/bsp_complex.rs | 31 +++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index f1dd2dd..63e2974 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -844,7 +844,15 @@ impl BSPComplex {
             }
 
             let face_triangles = triangulate(&points_2d, &segments, &bump);
-            triangles.extend(face_triangles.into_iter().map(|idx| face_new_verts[idx]));
+            if is_bounded_by(&face_triangles, &segments, &bump) {
+                triangles.extend(face_triangles.into_iter().map(|idx| face_new_verts[idx]));
+            } else {
+                // the rounded outline crosses itself: a fan still has the outline as its border
+                let apex = segments[0];
+                for ab in segments.chunks(2).filter(|ab| !ab.contains(&apex)) {
+                    triangles.extend([apex, ab[0], ab[1]].map(|idx| face_new_verts[idx]));
+                }
+            }
         }
         (out_points, triangles)
     }
@@ -2006,6 +2014,27 @@ fn vert_in_tri(orientations: &[Orientation]) -> bool {
     true
 }
 
+/// whether the border of the oriented triangles consists of exactly the given segments
+fn is_bounded_by<A: Allocator + Copy>(triangles: &[usize], segments: &[usize], bump: A) -> bool {
+    let mut degrees = hashbrown::HashMap::new_in(bump);
+    let mut add = |a: usize, b: usize, n: i32| {
+        if a < b {
+            *degrees.entry([a, b]).or_insert(0) += n;
+        } else {
+            *degrees.entry([b, a]).or_insert(0) -= n;
+        }
+    };
+    for tri in triangles.chunks(3) {
+        for i in 0..3 {
+            add(tri[i], tri[(i + 1) % 3], 1);
+        }
+    }
+    for ab in segments.chunks(2) {
+        add(ab[0], ab[1], -1);
+    }
+    degrees.values().all(|&n| n == 0)
+}
+
 #[inline(always)]
 fn poly_area(points: &[f64], poly: &[usize]) -> f64 {
     poly.chunks(2)
-- 
2.43.0


From 45ae5297dfe02d15d5ff7d1ac85e9d1b20124698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:59 +0000
Subject: [PATCH 18/23] fix: follow face corners at the right vertex when
 tracing pinched outlines

The corner successor of an edge inside a coplanar group of faces was looked
up by the edge alone. When both ends of such an edge are vertices where the
outline touches itself, the successor at one end overwrote that at the other
end, and tracing the outline panicked or left the fan of the vertex.
---
 src/polygonlization/bsp_complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 63e2974..459ae34 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1032,7 +1032,7 @@ impl BSPComplex {
                         if face_signs[fid] < 0 {
                             std::mem::swap(&mut ha, &mut hb);
                         }
-                        he_next_map.insert(*ha, *hb);
+                        he_next_map.insert((*ha, v), *hb);
                     }
                 }
             }
@@ -1068,7 +1068,7 @@ impl BSPComplex {
                             let mut cur = he.0;
                             let next_hid;
                             loop {
-                                let next = *he_next_map.get(&cur).unwrap();
+                                let next = *he_next_map.get(&(cur, vb)).unwrap();
                                 if let Some(&hid) =
                                     group.iter().find(|&&idx| halfedges[idx].0 == next)
                                 {
-- 
2.43.0


From 3b2b0b21670290d5a1dc0b38f9acfc093a040bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:43 +0000
Subject: [PATCH 19/23] fix: do not triangulate an output polygon whose
 vertices coincide in the projection

---
 src/polygonlization/bsp_complex.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 459ae34..368a515 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -843,7 +843,15 @@ impl BSPComplex {
                 }
             }
 
-            let face_triangles = triangulate(&points_2d, &segments, &bump);
+            // rounding can make different vertices coincide in the projection
+            let mut projected = Vec::with_capacity_in(face_new_verts.len(), &bump);
+            projected.extend(points_2d.chunks(2).map(|p| [p[0], p[1]].map(|x| (x + 0.0).to_bits())));
+            projected.sort_unstable();
+            let face_triangles = if projected.windows(2).all(|w| w[0] != w[1]) {
+                triangulate(&points_2d, &segments, &bump)
+            } else {
+                Vec::new_in(&bump)
+            };
             if is_bounded_by(&face_triangles, &segments, &bump) {
                 triangles.extend(face_triangles.into_iter().map(|idx| face_new_verts[idx]));
             } else {
-- 
2.43.0


From 262fe10818736d1316b73cad331e32028757e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:14 +0000
Subject: [PATCH 20/23] fix: triangulate returns no triangles when points
 joined by segments lie on one line

---
 src/triangle/triangle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index dbc4214..a30ec0c 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -43,6 +43,10 @@ pub fn triangulate<A: Allocator + Copy>(
     );
 
     let mut ghost = mark_ghost(&mesh.triangles, &mut hull_left, bump);
+    if ghost.iter().all(|&is_ghost| is_ghost) {
+        // all points lie on a line
+        return Vec::new_in(bump);
+    }
     form_skeleton(&mut mesh, &ghost, segments, bump);
     let mut visited = std::vec::from_elem_in(false, mesh.triangles.len(), bump);
     for i in 0..visited.len() {
-- 
2.43.0


From b1b7200bf03a753d2e506c2199a7d1d21d42014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:36 +0000
Subject: [PATCH 21/23] fix: triangulate ignores boundary pieces that are run
 through in both directions

---
 src/triangle/triangle.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index a30ec0c..e2e6729 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -75,7 +75,7 @@ pub fn triangulate<A: Allocator + Copy>(
             }
             idx += 1;
         }
-        if flag == 0 {
+        if flag == 0 || (flag > 1 && !segments.is_empty()) {
             for j in queue {
                 ghost[j] = true;
             }
@@ -945,12 +945,16 @@ fn mark(triangles: &[Triangle], he: &HEdge) -> usize {
 }
 #[inline(always)]
 fn set_mark(triangles: &mut [Triangle], he: &HEdge, mark: usize, reverse: bool) {
-    triangles[he.tri].data[he.ori + 3] = mark;
+    // An edge that is run through in both directions bounds nothing.
+    let old = triangles[he.tri].data[he.ori + 3];
+    let cancelled = reverse && old != INVALID_IND && (old ^ mark) & 1 == 1;
+    triangles[he.tri].data[he.ori + 3] = if cancelled { INVALID_IND } else { mark };
     if reverse {
         let mut sym_edge = HEdge::default();
         sym(triangles, he, &mut sym_edge);
         if sym_edge.tri != INVALID_IND {
-            triangles[sym_edge.tri].data[sym_edge.ori + 3] = twin(mark);
+            triangles[sym_edge.tri].data[sym_edge.ori + 3] =
+                if cancelled { INVALID_IND } else { twin(mark) };
         }
     }
 }
-- 
2.43.0


From cc1c8fa2e8e36006f2eed9b6a7646442bf12a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:09 +0000
Subject: [PATCH 22/23] fix: decide exactly whether a face lies in a triangle
 when its rounded centre is outside

A face whose rounded centre is not inside it was only recognised as part of a
constraint triangle if one of its vertices is strictly inside the triangle or
two of their sides cross. Faces whose vertices all lie on the triangle's border
were left out, so solids of a few units in the last place lost their surface.
---
 src/polygonlization/bsp_complex.rs | 66 +++++++++++-------------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 368a515..afc586c 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1346,48 +1346,18 @@ impl BSPComplex {
         axis: usize,
         bump: A,
     ) -> bool {
-        let mut verts = Vec::new_in(bump);
-        verts.extend(self.mesh.face(fid).halfedges().map(|he| *he.from()));
-        let mut orientations = Vec::with_capacity_in(verts.len(), bump);
-
-        for &vid in verts.iter() {
-            let p = &self.points[vid];
-            let mut tri_points = Vec::with_capacity_in(3, bump);
-            tri_points.extend(tri.iter().map(|&v| &self.points[v]));
-            let mut vert_orientations = Vec::with_capacity_in(3, bump);
-            vert_orientations.extend(
-                tri_points
-                    .into_iter()
-                    .circular_tuple_windows()
-                    .map(|(pa, pb)| orient2d::orient2d_by_axis(pa, pb, p, axis, bump)),
-            );
+        let mut face_points = Vec::new_in(bump);
+        face_points.extend(
+            self.mesh
+                .face(fid)
+                .halfedges()
+                .map(|he| &self.points[*he.from()]),
+        );
+        let tri_points = from_fn::<_, 3, _>(|i| &self.points[tri[i]]);
 
-            // intersect in inner
-            if vert_orientations
-                .iter()
-                .all(|&ori| ori == vert_orientations[0])
-            {
-                return true;
-            }
-            orientations.push(vert_orientations);
-        }
-        for (i, j) in (0..verts.len()).circular_tuple_windows() {
-            for k in 0..3 {
-                if sign_reversed(orientations[i][k], orientations[j][k]) {
-                    let pa = &self.points[verts[i]];
-                    let pb = &self.points[verts[j]];
-                    let pc = &self.points[tri[k]];
-                    let pd = &self.points[tri[(k + 1) % 3]];
-                    if sign_reversed(
-                        orient2d::orient2d_by_axis(pa, pb, pc, axis, bump),
-                        orient2d::orient2d_by_axis(pa, pb, pd, axis, bump),
-                    ) {
-                        return true;
-                    }
-                }
-            }
-        }
-        false
+        // both are convex: they overlap unless a side of one of them separates them
+        !separated_by_side(&face_points, &tri_points, axis, bump)
+            && !separated_by_side(&tri_points, &face_points, axis, bump)
     }
 
     #[inline]
@@ -1895,6 +1865,20 @@ fn is_triangle_intersects_cell<A: Allocator + Copy>(
     return true;
 }
 
+/// is the convex polygon `other` nowhere on the inner side of one of the sides of the convex polygon `poly`?
+fn separated_by_side<A: Allocator + Copy>(
+    poly: &[&Point3D],
+    other: &[&Point3D],
+    axis: usize,
+    bump: A,
+) -> bool {
+    poly.iter().circular_tuple_windows().any(|(&pa, &pb)| {
+        let side = |&pc: &&Point3D| orient2d::orient2d_by_axis(pa, pb, pc, axis, bump);
+        let inner = poly.iter().map(side).find(|&ori| ori != Orientation::Zero);
+        inner.map_or(true, |inner| other.iter().all(|pc| side(pc) != inner))
+    })
+}
+
 fn is_triangle_intersects_poly<A: Allocator + Copy>(
     tri: &[&Point3D],
     poly: &[&Point3D],
-- 
2.43.0


From 53b9327c6abc3582ecb9b1c8e8351a1ed4a642ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:48 +0000
Subject: [PATCH 23/23] fix: take the sign of an output polygon's area exactly

The area was summed from products of the coordinates themselves, so for small
polygons far from the origin the rounding errors outweighed it, and polygons
were triangulated with the wrong orientation.
---
 src/polygonlization/bsp_complex.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index afc586c..9171d28 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -12,7 +12,7 @@ use crate::{
     mesh::{EdgeId, ElementId, FaceId, HalfedgeId, Mesh, SurfaceMesh, VertexId},
     predicates::{
         double_to_sign, max_comp_in_tri_normal, orient2d, orient2d_by_axis, orient3d::orient3d,
-        sign_reverse, sign_reversed, ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI,
+        sign_reverse, sign_reversed, ExpansionNum, ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI,
         ImplicitPointTPI, Orientation, Point3D,
     },
     triangle::{triangulate, TetMesh},
@@ -837,7 +837,7 @@ impl BSPComplex {
                 local_indices[new_vid] = INVALID_IND;
             }
 
-            if poly_area(&points_2d, &segments) < 0.0 {
+            if poly_area(&points_2d, &segments, &bump) < 0.0 {
                 for p in points_2d.chunks_mut(2) {
                     p.swap(0, 1);
                 }
@@ -2027,13 +2027,14 @@ fn is_bounded_by<A: Allocator + Copy>(triangles: &[usize], segments: &[usize], b
     degrees.values().all(|&n| n == 0)
 }
 
-#[inline(always)]
-fn poly_area(points: &[f64], poly: &[usize]) -> f64 {
-    poly.chunks(2)
-        .map(|ab| {
-            let pa = &points[(ab[0] << 1)..];
-            let pb = &points[(ab[1] << 1)..];
-            pa[0] * pb[1] - pa[1] * pb[0]
-        })
-        .sum::<f64>()
+/// a number with the sign of the polygon's area: the rounding errors of a sum of products could outweigh a small
+/// area that is far from the origin
+fn poly_area<A: Allocator + Copy>(points: &[f64], poly: &[usize], bump: A) -> f64 {
+    let num = |x: f64| ExpansionNum::from([x].to_vec_in(bump));
+    let area = poly.chunks(2).fold(num(0.0), |area, ab| {
+        let pa = &points[(ab[0] << 1)..];
+        let pb = &points[(ab[1] << 1)..];
+        area + (num(pa[0]) * num(pb[1]) - num(pa[1]) * num(pb[0]))
+    });
+    *area.last().unwrap()
 }
-- 
2.43.0

