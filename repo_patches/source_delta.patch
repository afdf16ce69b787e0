From dfb9ac8866e572c0d2d6142e3a7d844c0b2dfd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 01/11] fix: fill the concave node, not its neighbour, in the
 right convex edge event

fill_right_convex_edge_event found that the node after next_node is concave
but passed node_id on, so fill_right_concave_edge_event filled next_node,
a convex node, with an inverted triangle. The left counterpart and the
original C++ both pass the next node.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e0b9341..a843f4d 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -695,7 +695,7 @@ impl Sweeper<'_> {
         .is_ccw()
         {
             // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
+            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
         } else {
             // convex
             // next above or below edge?
-- 
2.43.0


From 9385c16545593a7a1598fe293f5f8c178bcd8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 02/11] fix: decide the scan area with the robust orientation
 predicate

in_scan_area compared rounded cross products with a fixed epsilon, so that
small inputs and thin triangles were misjudged and the edge event paniced
with "Opposing point on constrained edge" or recursed without end.
---
 src/utils.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 5617e0f..6ef09b2 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,17 +61,7 @@ pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
 }
 
 pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
-    let oadb = (a.x - b.x) * (d.y - b.y) - (d.x - b.x) * (a.y - b.y);
-    if oadb >= -Float::EPSILON {
-        return false;
-    }
-
-    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y);
-    if oadc <= Float::EPSILON {
-        return false;
-    }
-
-    true
+    orient_2d(a, d, b).is_cw() && orient_2d(a, d, c).is_ccw()
 }
 
 #[derive(Debug, Clone, Copy)]
-- 
2.43.0


From 63d6dc73d18e49f35a9bd8be308586e22509e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 03/11] fix: compare x exactly when deciding whether the new
 point hides a node

The fixed epsilon made every node of an input smaller than 2.2e-16 count as
hidden, which filled convex nodes with inverted triangles and paniced later.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index a843f4d..bdd453b 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -140,7 +140,7 @@ impl Sweeper<'_> {
 
         // in middle case, the node's x should be less than point'x
         // in left case, they are same.
-        if point.x <= node_point.x + Float::EPSILON {
+        if point.x <= node_point.x {
             self.fill_one(node_id, observer);
         }
 
-- 
2.43.0


From a3a28185e5d5d2c11b7d31d91920ab59e4b73a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 04/11] fix: take the sign of a hole angle from the robust
 orientation predicate

The cross product in Angle::new was rounded, so a slightly convex front node
could be filled as a hole, which left a clockwise triangle in the result or
made a later edge event panic.
---
 src/utils.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6ef09b2..a2b3fb6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -66,21 +66,21 @@ pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
 
 #[derive(Debug, Clone, Copy)]
 pub struct Angle {
-    dy: Float,
+    dy: f64,
     dx: Float,
 }
 
 impl Angle {
     /// Create angle from three points, is the angle for aob
     pub fn new(o: Point, a: Point, b: Point) -> Self {
-        let ox = o.x;
-        let oy = o.y;
-        let dax = a.x - ox;
-        let day = a.y - oy;
-        let dbx = b.x - ox;
-        let dby = b.y - oy;
-        let y = dax * dby - day * dbx;
-        let x = dax * dbx + day * dby;
+        // dy's sign tells which side of oa is b, a rounded value could be wrong
+        // for nearly collinear points
+        let y = robust::orient2d(
+            robust::Coord { x: o.x, y: o.y },
+            robust::Coord { x: a.x, y: a.y },
+            robust::Coord { x: b.x, y: b.y },
+        );
+        let x = (a.x - o.x) * (b.x - o.x) + (a.y - o.y) * (b.y - o.y);
         Angle { dy: y, dx: x }
     }
 
-- 
2.43.0


From 05484aba5b124faee8a6d9e4cb07262582132d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 05/11] fix: start the final flood fill at the outline, not at
 a free point

finalize_polygon took the leftmost node of the advancing front for a point of
the polyline. With a steiner point to the left of the polyline no constrained
edge was found and the result was empty, though such a point is documented to
have no effect.
---
 src/sweeper.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index bdd453b..eaa4a40 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -60,27 +60,34 @@ impl Sweeper<'_> {
 
     pub(crate) fn finalize_polygon(&mut self) -> Option<()> {
         // get an internal triangle to start with
-        // the first node is head, artificial point, so skip
-        let node = self.advancing_front.nth(1)?;
-
-        let mut t = node.triangle?;
-
-        loop {
-            if let Some(tri) = self.triangles.get(t) {
-                if !tri.constrained_edge_cw(node.point_id()) {
-                    t = tri.neighbor_ccw(node.point_id());
-                } else {
-                    break;
-                }
-            } else {
-                // no valid triangle found, just break
-                break;
+        // the leftmost point of all edges belongs to the outer polyline, and all its
+        // edges go to the right. So the triangle right below the topmost one is internal.
+        // Note: the advancing front's leftmost node won't do, it may be a steiner point
+        //       outside of the polyline
+        let (point_id, point) = self
+            .points
+            .iter_without_fake()
+            .flat_map(|(q, _, edges)| edges.flat_map(move |p| [p, q]))
+            .map(|id| (id, id.get(&self.points)))
+            .min_by(|(_, a), (_, b)| {
+                (a.x, a.y)
+                    .partial_cmp(&(b.x, b.y))
+                    .unwrap_or(std::cmp::Ordering::Equal)
+            })?;
+
+        let mut start: Option<(TriangleId, Point)> = None;
+        for (id, triangle) in self.triangles.iter() {
+            if triangle.point_index(point_id).is_none() || !triangle.constrained_edge_cw(point_id) {
+                continue;
+            }
+            let upper = triangle.point_cw(point_id).get(&self.points);
+            match start {
+                Some((_, topmost)) if !orient_2d(point, topmost, upper).is_ccw() => {}
+                _ => start = Some((id, upper)),
             }
         }
 
-        if !t.invalid() {
-            self.clean_mesh(t);
-        }
+        self.clean_mesh(start?.0);
 
         Some(())
     }
-- 
2.43.0


From 83d78d050ba2e76c45e497b8c16bc15a35a848e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 06/11] fix: walk the front in loops, recursion overflowed the
 stack on large inputs

The helpers that fill below an edge, fill a basin and turn around a point
recursed once per front node or triangle, so a valid polyline of some
thousand points (a wide arc, a parabola) overflowed the stack.
---
 src/sweeper.rs | 423 ++++++++++++++++++++++++++-----------------------
 1 file changed, 222 insertions(+), 201 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index eaa4a40..80776bd 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -624,61 +624,69 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        if node_id.point().x >= edge.p.x {
-            return None;
-        }
+        loop {
+            if node_id.point().x >= edge.p.x {
+                return None;
+            }
 
-        let node = self.advancing_front.get_node_with_id(node_id).unwrap();
+            let node = self.advancing_front.get_node_with_id(node_id).unwrap();
 
-        let next_node = node.next().unwrap();
-        let next_next_node = next_node.next().unwrap();
+            let next_node = node.next().unwrap();
+            let next_next_node = next_node.next().unwrap();
 
-        if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {
-            // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
-        } else {
-            // convex
-            self.fill_right_convex_edge_event(edge, node_id, observer)?;
+            if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {
+                // concave
+                self.fill_right_concave_edge_event(edge, node_id, observer);
+            } else {
+                // convex
+                self.fill_right_convex_edge_event(edge, node_id, observer)?;
 
-            // retry this one
-            self.fill_right_below_edge_event(edge, node_id, observer);
-        }
+                // retry this one
+                continue;
+            }
 
-        Some(())
+            return Some(());
+        }
     }
 
-    /// recursively fill concave nodes
+    /// fill concave nodes one after another. There may be as many of them as there are
+    /// points, so it is a loop: recursion would exhaust the stack
     fn fill_right_concave_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
-        let next_id = {
-            let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
-            let next_id = next_node.get_node_id();
-            match self.fill_one(next_id, observer) {
-                None => {
-                    // nothing changed
-                    next_id
+        loop {
+            let next_id = {
+                let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
+                let next_id = next_node.get_node_id();
+                match self.fill_one(next_id, observer) {
+                    None => {
+                        // nothing changed
+                        next_id
+                    }
+                    Some(fill_one) => fill_one.next,
                 }
-                Some(fill_one) => fill_one.next,
-            }
-        };
+            };
 
-        if next_id.point_id() != edge.p_id() {
-            // next above or below edge?
-            if orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
-                let next_next_node = self.advancing_front.locate_next_node(next_id).unwrap();
+            if next_id.point_id() != edge.p_id() {
+                // next above or below edge?
+                if orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
+                    let next_next_node = self.advancing_front.locate_next_node(next_id).unwrap();
 
-                //  below
-                if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {
-                    // next is concave
-                    self.fill_right_concave_edge_event(edge, node_id, observer);
-                } else {
-                    // next is convex
+                    //  below
+                    if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw()
+                    {
+                        // next is concave
+                        continue;
+                    } else {
+                        // next is convex
+                    }
                 }
             }
+
+            break;
         }
     }
 
@@ -687,34 +695,37 @@ impl Sweeper<'_> {
     fn fill_right_convex_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
-        node_id: NodeId,
+        mut node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
-        let next_next_node = next_node.next().unwrap();
-        let next_next_next_node = next_next_node.next()?;
-        // next concave or convex?
-        if orient_2d(
-            next_node.point(),
-            next_next_node.point(),
-            next_next_next_node.point(),
-        )
-        .is_ccw()
-        {
-            // concave
-            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
-        } else {
-            // convex
-            // next above or below edge?
-            if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
-                // Below
-                self.fill_right_convex_edge_event(edge, next_node.get_node_id(), observer)?;
+        loop {
+            let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
+            let next_next_node = next_node.next().unwrap();
+            let next_next_next_node = next_next_node.next()?;
+            // next concave or convex?
+            if orient_2d(
+                next_node.point(),
+                next_next_node.point(),
+                next_next_next_node.point(),
+            )
+            .is_ccw()
+            {
+                // concave
+                self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
             } else {
-                // Above
+                // convex
+                // next above or below edge?
+                if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
+                    // Below
+                    node_id = next_node.get_node_id();
+                    continue;
+                } else {
+                    // Above
+                }
             }
-        }
 
-        Some(())
+            return Some(());
+        }
     }
 
     fn fill_left_above_edge_event(
@@ -744,7 +755,7 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        if node_id.point().x > edge.p.x {
+        while node_id.point().x > edge.p.x {
             let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
             let prev_prev_node = prev_node.prev().unwrap();
             if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
@@ -754,12 +765,12 @@ impl Sweeper<'_> {
                 self.fill_left_convex_edge_event(edge, node_id, observer)?;
 
                 // retry this one
-                self.fill_left_below_edge_event(edge, node_id, observer);
+                continue;
             }
-            Some(())
-        } else {
-            None
+            return Some(());
         }
+
+        None
     }
 
     // if nothing changed, returns None
@@ -767,34 +778,38 @@ impl Sweeper<'_> {
     fn fill_left_convex_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
-        node_id: NodeId,
+        mut node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        // next concave or convex?
-        let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
-        let prev_prev_node = prev_node.prev().unwrap();
-        let prev_prev_prev_node = prev_prev_node.prev()?;
+        loop {
+            // next concave or convex?
+            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
+            let prev_prev_node = prev_node.prev().unwrap();
+            let prev_prev_prev_node = prev_prev_node.prev()?;
 
-        if orient_2d(
-            prev_node.point(),
-            prev_prev_node.point(),
-            prev_prev_prev_node.point(),
-        )
-        .is_cw()
-        {
-            // concave
-            self.fill_left_concave_edge_event(edge, prev_node.get_node_id(), observer);
-        } else {
-            // convex
-            // next above or below edge?
-            if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {
-                // below
-                self.fill_left_convex_edge_event(edge, prev_node.get_node_id(), observer)?;
+            if orient_2d(
+                prev_node.point(),
+                prev_prev_node.point(),
+                prev_prev_prev_node.point(),
+            )
+            .is_cw()
+            {
+                // concave
+                self.fill_left_concave_edge_event(edge, prev_node.get_node_id(), observer);
             } else {
-                // above
+                // convex
+                // next above or below edge?
+                if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {
+                    // below
+                    node_id = prev_node.get_node_id();
+                    continue;
+                } else {
+                    // above
+                }
             }
+
+            return Some(());
         }
-        Some(())
     }
 
     fn fill_left_concave_edge_event(
@@ -803,28 +818,33 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
-        let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
+        loop {
+            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
 
-        let prev_node_id = prev_node.get_node_id();
+            let prev_node_id = prev_node.get_node_id();
 
-        let prev_node_id = match self.fill_one(prev_node_id, observer) {
-            Some(fill_one) => fill_one.prev,
-            None => prev_node_id,
-        };
+            let prev_node_id = match self.fill_one(prev_node_id, observer) {
+                Some(fill_one) => fill_one.prev,
+                None => prev_node_id,
+            };
 
-        if prev_node_id.point_id() != edge.p_id() {
-            // next above or below edge?
-            if orient_2d(edge.q, prev_node_id.point(), edge.p).is_cw() {
-                let prev_node = self.advancing_front.get_node_with_id(prev_node_id).unwrap();
-                // below
-                let prev_prev_node = prev_node.prev().unwrap();
-                if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
-                    // next is concave
-                    self.fill_left_concave_edge_event(edge, node_id, observer);
-                } else {
-                    // next is convex
+            if prev_node_id.point_id() != edge.p_id() {
+                // next above or below edge?
+                if orient_2d(edge.q, prev_node_id.point(), edge.p).is_cw() {
+                    let prev_node = self.advancing_front.get_node_with_id(prev_node_id).unwrap();
+                    // below
+                    let prev_prev_node = prev_node.prev().unwrap();
+                    if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw()
+                    {
+                        // next is concave
+                        continue;
+                    } else {
+                        // next is convex
+                    }
                 }
             }
+
+            break;
         }
     }
 
@@ -833,81 +853,82 @@ impl Sweeper<'_> {
         ep: PointId,
         eq: PointId,
         constrain_edge: &ConstrainedEdge,
-        triangle_id: TriangleId,
+        mut triangle_id: TriangleId,
         p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
     ) {
-        assert!(!triangle_id.invalid());
-
-        if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
-            return;
-        }
+        loop {
+            assert!(!triangle_id.invalid());
 
-        let triangle = self.triangles.get_mut_unchecked(triangle_id);
-        let p1 = triangle.point_ccw(p);
-        let o1 = orient_2d(
-            eq.get(&self.points),
-            p1.get(&self.points),
-            ep.get(&self.points),
-        );
-
-        if o1.is_collinear() {
-            if let Some(edge_index) = triangle.edge_index(eq, p1) {
-                triangle.set_constrained(edge_index, true);
-
-                let neighbor_across_t = triangle.neighbor_across(p);
-                self.edge_event_process(
-                    ep,
-                    p1,
-                    &constrain_edge.with_q(p1, self),
-                    neighbor_across_t,
-                    p1,
-                    triangle_ids,
-                );
+            if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
                 return;
-            } else {
-                panic!("EdgeEvent - collinear points not supported")
             }
-        }
 
-        let p2 = triangle.point_cw(p);
-        let o2 = orient_2d(
-            eq.get(&self.points),
-            p2.get(&self.points),
-            ep.get(&self.points),
-        );
-        if o2.is_collinear() {
-            if let Some(edge_index) = triangle.edge_index(eq, p2) {
-                triangle.set_constrained(edge_index, true);
-
-                let neighbor_across_t = triangle.neighbor_across(p);
-                self.edge_event_process(
-                    ep,
-                    p2,
-                    &constrain_edge.with_q(p2, self),
-                    neighbor_across_t,
-                    p2,
-                    triangle_ids,
-                );
+            let triangle = self.triangles.get_mut_unchecked(triangle_id);
+            let p1 = triangle.point_ccw(p);
+            let o1 = orient_2d(
+                eq.get(&self.points),
+                p1.get(&self.points),
+                ep.get(&self.points),
+            );
+
+            if o1.is_collinear() {
+                if let Some(edge_index) = triangle.edge_index(eq, p1) {
+                    triangle.set_constrained(edge_index, true);
+
+                    let neighbor_across_t = triangle.neighbor_across(p);
+                    self.edge_event_process(
+                        ep,
+                        p1,
+                        &constrain_edge.with_q(p1, self),
+                        neighbor_across_t,
+                        p1,
+                        triangle_ids,
+                    );
+                    return;
+                } else {
+                    panic!("EdgeEvent - collinear points not supported")
+                }
+            }
 
-                return;
-            } else {
-                panic!("collinear points not supported");
+            let p2 = triangle.point_cw(p);
+            let o2 = orient_2d(
+                eq.get(&self.points),
+                p2.get(&self.points),
+                ep.get(&self.points),
+            );
+            if o2.is_collinear() {
+                if let Some(edge_index) = triangle.edge_index(eq, p2) {
+                    triangle.set_constrained(edge_index, true);
+
+                    let neighbor_across_t = triangle.neighbor_across(p);
+                    self.edge_event_process(
+                        ep,
+                        p2,
+                        &constrain_edge.with_q(p2, self),
+                        neighbor_across_t,
+                        p2,
+                        triangle_ids,
+                    );
+
+                    return;
+                } else {
+                    panic!("collinear points not supported");
+                }
             }
-        }
 
-        if o1 == o2 {
-            // need to decide if we are rotating cw or ccw to get to a triangle
-            // that will cross edge
-            let triangle_id = if o1.is_cw() {
-                triangle.neighbor_ccw(p)
+            if o1 == o2 {
+                // need to decide if we are rotating cw or ccw to get to a triangle
+                // that will cross edge
+                triangle_id = if o1.is_cw() {
+                    triangle.neighbor_ccw(p)
+                } else {
+                    triangle.neighbor_cw(p)
+                };
             } else {
-                triangle.neighbor_cw(p)
-            };
-
-            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
-        } else {
-            self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+                self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+                return;
+            }
         }
     }
 }
@@ -1175,48 +1196,48 @@ impl Sweeper<'_> {
 
     fn fill_basin_req(
         &mut self,
-        node: NodeId,
+        mut node: NodeId,
         basin: &Basin,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        if basin.completed(node.point()) {
-            return None;
-        }
-
-        let fill_one = self.fill_one(node, observer).expect("already in basin");
-        let prev = fill_one.prev;
-        let next = fill_one.next;
-
-        if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {
-            return Some(());
-        }
-
-        let new_node = if prev.point().eq(&basin.left) {
-            let next = self.advancing_front.get_node_with_id(next).unwrap();
-            let next_next = next.next().unwrap();
-            if orient_2d(node.point(), next.point(), next_next.point()).is_cw() {
+        loop {
+            if basin.completed(node.point()) {
                 return None;
             }
 
-            next.get_node_id()
-        } else if next.point().eq(&basin.right) {
-            let prev = self.advancing_front.get_node_with_id(prev).unwrap();
-            let prev_prev = prev.prev()?;
-            if orient_2d(node.point(), prev.point(), prev_prev.point()).is_ccw() {
-                return None;
-            }
+            let fill_one = self.fill_one(node, observer).expect("already in basin");
+            let prev = fill_one.prev;
+            let next = fill_one.next;
 
-            prev.get_node_id()
-        } else {
-            // continue with the neighbor node with lowest Y value
-            if prev.point().y < next.point().y {
-                prev
-            } else {
-                next
+            if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {
+                return Some(());
             }
-        };
 
-        self.fill_basin_req(new_node, basin, observer)
+            node = if prev.point().eq(&basin.left) {
+                let next = self.advancing_front.get_node_with_id(next).unwrap();
+                let next_next = next.next().unwrap();
+                if orient_2d(node.point(), next.point(), next_next.point()).is_cw() {
+                    return None;
+                }
+
+                next.get_node_id()
+            } else if next.point().eq(&basin.right) {
+                let prev = self.advancing_front.get_node_with_id(prev).unwrap();
+                let prev_prev = prev.prev()?;
+                if orient_2d(node.point(), prev.point(), prev_prev.point()).is_ccw() {
+                    return None;
+                }
+
+                prev.get_node_id()
+            } else {
+                // continue with the neighbor node with lowest Y value
+                if prev.point().y < next.point().y {
+                    prev
+                } else {
+                    next
+                }
+            };
+        }
     }
 }
 
-- 
2.43.0


From 5228276bb50adf47b6d3165b1a47587f90b14a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 07/11] fix: check triangle ids and front lookups, both were
 undefined behaviour from safe code

TriangleStore::get and the get_unchecked pair are safe functions that an
observer can call with any TriangleId, and an invalid polyline made the sweep
itself call them with TriangleId::INVALID. AdvancingFront::locate_node
wrapped around for a point left of the front.
---
 src/advancing_front/vec_backed.rs | 2 +-
 src/triangles.rs                  | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/advancing_front/vec_backed.rs b/src/advancing_front/vec_backed.rs
index 7029013..b760676 100644
--- a/src/advancing_front/vec_backed.rs
+++ b/src/advancing_front/vec_backed.rs
@@ -200,7 +200,7 @@ impl AdvancingFront {
     pub fn locate_node(&self, point: Point) -> Option<NodeRef> {
         let key = PointKey(point);
         let idx = match self.search_by_key(&key) {
-            Err(idx) => idx - 1,
+            Err(idx) => idx.checked_sub(1)?,
             Ok(idx) => idx,
         };
         // safety: idx is checked
diff --git a/src/triangles.rs b/src/triangles.rs
index 1d69085..2800721 100644
--- a/src/triangles.rs
+++ b/src/triangles.rs
@@ -68,15 +68,12 @@ impl TriangleStore {
     }
 
     pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {
-        if id == TriangleId::INVALID {
-            return None;
-        }
-        unsafe { Some(self.triangles.get_unchecked(id.as_usize())) }
+        self.triangles.get(id.as_usize())
     }
 
     pub fn get_unchecked(&self, id: TriangleId) -> &InnerTriangle {
         debug_assert!(!id.invalid());
-        unsafe { self.triangles.get_unchecked(id.as_usize()) }
+        &self.triangles[id.as_usize()]
     }
 
     pub fn get_mut(&mut self, id: TriangleId) -> Option<&mut InnerTriangle> {
@@ -158,7 +155,7 @@ impl TriangleStore {
     }
 
     pub fn get_mut_unchecked(&mut self, id: TriangleId) -> &mut InnerTriangle {
-        unsafe { self.triangles.get_unchecked_mut(id.as_usize()) }
+        &mut self.triangles[id.as_usize()]
     }
 
     pub fn iter(&self) -> impl Iterator<Item = (TriangleId, &InnerTriangle)> {
-- 
2.43.0


From 2c0e7fa199b895fde3c603c6e800ca8528dc06f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 08/11] fix: the loader returns an error for a malformed file
 instead of panicking

A line with one number or with something that is not a number, a line of
blanks and a file that is not UTF-8 all hit an unwrap, although load returns
a Result. A line of blanks is now skipped like an empty one.
---
 src/loader.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 71684cf..308f1f9 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -30,7 +30,7 @@ impl Loader for PlainFileLoader {
     fn load(&mut self, path: &str) -> Result<Builder, LoaderError> {
         let mut f = std::fs::File::options().read(true).open(path)?;
         let mut value = "".to_string();
-        std::io::Read::read_to_string(&mut f, &mut value).unwrap();
+        std::io::Read::read_to_string(&mut f, &mut value)?;
 
         let mut state = ParseState::default();
         let mut polygon = vec![];
@@ -71,14 +71,17 @@ impl Loader for PlainFileLoader {
 }
 
 fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
-    if line.is_empty() {
-        return Ok(None);
-    }
     let mut iter = line.split_whitespace();
-    let x = iter.next().unwrap();
-    let y = iter.next().unwrap();
-    let x = x.parse::<Float>().unwrap();
-    let y = y.parse::<Float>().unwrap();
+    let Some(x) = iter.next() else {
+        return Ok(None);
+    };
+    let Some(y) = iter.next() else {
+        return Err(LoaderError::Inner(
+            format!("missing y coordinate: {line}").into(),
+        ));
+    };
+    let x = x.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;
+    let y = y.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;
 
     Ok(Some(Point::new(x, y)))
 }
-- 
2.43.0


From 51dc015acb5faafd8ebadfa420137730acf43032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 09/11] fix: flip towards an edge in loops, recursion
 overflowed the stack in unoptimised builds

---
 src/sweeper.rs | 154 +++++++++++++++++++++++++++----------------------
 1 file changed, 84 insertions(+), 70 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 80776bd..8b5fc82 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -926,8 +926,10 @@ impl Sweeper<'_> {
                     triangle.neighbor_cw(p)
                 };
             } else {
-                self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
-                return;
+                match self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids) {
+                    Some(next) => triangle_id = next,
+                    None => return,
+                }
             }
         }
     }
@@ -935,58 +937,64 @@ impl Sweeper<'_> {
 
 /// flip edge related methods
 impl Sweeper<'_> {
+    /// Flip until edge `ep -> eq` is there, or until the next flip is blocked and the
+    /// triangles in the way are flipped. In this case it returns the triangle to
+    /// continue the edge event with.
+    #[must_use]
     fn flip_edge_event(
         &mut self,
         ep: PointId,
         eq: PointId,
         edge: &ConstrainedEdge,
-        triangle_id: TriangleId,
+        mut triangle_id: TriangleId,
         p: PointId,
         legalize_queue: &mut Vec<TriangleId>,
-    ) {
-        let t = triangle_id.get(&self.triangles);
-        let ot_id = t.neighbor_across(p);
-        let ot = ot_id.get(&self.triangles);
-        let op = ot.opposite_point(t, p);
-
-        if in_scan_area(
-            p.get(&self.points),
-            t.point_ccw(p).get(&self.points),
-            t.point_cw(p).get(&self.points),
-            op.get(&self.points),
-        ) {
-            // lets rotate shared edge one vertex cw
-            if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
-                self.map_triangle_to_nodes(triangle_id);
-                self.map_triangle_to_nodes(ot_id);
-            }
-            // legalize later
-            legalize_queue.extend([triangle_id, ot_id]);
-
-            if p == eq && op == ep {
-                if eq == edge.q_id() && ep == edge.p_id() {
-                    self.triangles
-                        .get_mut_unchecked(triangle_id)
-                        .set_constrained_for_edge(ep, eq);
-
-                    self.triangles
-                        .get_mut_unchecked(ot_id)
-                        .set_constrained_for_edge(ep, eq);
+    ) -> Option<TriangleId> {
+        loop {
+            let t = triangle_id.get(&self.triangles);
+            let ot_id = t.neighbor_across(p);
+            let ot = ot_id.get(&self.triangles);
+            let op = ot.opposite_point(t, p);
+
+            if in_scan_area(
+                p.get(&self.points),
+                t.point_ccw(p).get(&self.points),
+                t.point_cw(p).get(&self.points),
+                op.get(&self.points),
+            ) {
+                // lets rotate shared edge one vertex cw
+                if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
+                    self.map_triangle_to_nodes(triangle_id);
+                    self.map_triangle_to_nodes(ot_id);
                 }
-            } else {
+                // legalize later
+                legalize_queue.extend([triangle_id, ot_id]);
+
+                if p == eq && op == ep {
+                    if eq == edge.q_id() && ep == edge.p_id() {
+                        self.triangles
+                            .get_mut_unchecked(triangle_id)
+                            .set_constrained_for_edge(ep, eq);
+
+                        self.triangles
+                            .get_mut_unchecked(ot_id)
+                            .set_constrained_for_edge(ep, eq);
+                    }
+                    return None;
+                }
+
                 let o = orient_2d(
                     eq.get(&self.points),
                     op.get(&self.points),
                     ep.get(&self.points),
                 );
 
-                let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
-                self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
+                triangle_id = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
+            } else {
+                let new_p = self.next_flip_point(ep, eq, ot_id, op);
+                self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
+                return Some(triangle_id);
             }
-        } else {
-            let new_p = self.next_flip_point(ep, eq, ot_id, op);
-            self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
-            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);
         }
     }
 
@@ -1042,41 +1050,47 @@ impl Sweeper<'_> {
         eq: PointId,
         edge: &ConstrainedEdge,
         flip_triangle_id: TriangleId,
-        t_id: TriangleId,
-        p: PointId,
+        mut t_id: TriangleId,
+        mut p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
     ) {
-        let t = t_id.get(&self.triangles);
-        let ot = t.neighbor_across(p);
-        if ot.invalid() {
-            panic!("flip_scan_edge_event - null neighbor across");
-        }
+        loop {
+            let t = t_id.get(&self.triangles);
+            let ot = t.neighbor_across(p);
+            if ot.invalid() {
+                panic!("flip_scan_edge_event - null neighbor across");
+            }
 
-        let op = ot.get(&self.triangles).opposite_point(t, p);
-        let flip_triangle = flip_triangle_id.get(&self.triangles);
-        let p1 = flip_triangle.point_ccw(eq);
-        let p2 = flip_triangle.point_cw(eq);
+            let op = ot.get(&self.triangles).opposite_point(t, p);
+            let flip_triangle = flip_triangle_id.get(&self.triangles);
+            let p1 = flip_triangle.point_ccw(eq);
+            let p2 = flip_triangle.point_cw(eq);
 
-        if in_scan_area(
-            eq.get(&self.points),
-            p1.get(&self.points),
-            p2.get(&self.points),
-            op.get(&self.points),
-        ) {
-            // flip with new edge op -> eq
-            self.flip_edge_event(eq, op, edge, ot, op, triangle_ids);
-
-            // original comment:
-            // TODO: Actually I just figured out that it should be possible to
-            //       improve this by getting the next ot and op before the the above
-            //       flip and continue the flipScanEdgeEvent here
-            // set new ot and op here and loop back to inScanArea test
-            // also need to set a new flip_triangle first
-            // Turns out at first glance that this is somewhat complicated
-            // so it will have to wait.
-        } else {
-            let new_p = self.next_flip_point(ep, eq, ot, op);
-            self.flip_scan_edge_event(ep, eq, edge, flip_triangle_id, ot, new_p, triangle_ids);
+            if in_scan_area(
+                eq.get(&self.points),
+                p1.get(&self.points),
+                p2.get(&self.points),
+                op.get(&self.points),
+            ) {
+                // flip with new edge op -> eq
+                if let Some(t) = self.flip_edge_event(eq, op, edge, ot, op, triangle_ids) {
+                    self.edge_event_process(eq, op, edge, t, op, triangle_ids);
+                }
+
+                // original comment:
+                // TODO: Actually I just figured out that it should be possible to
+                //       improve this by getting the next ot and op before the the above
+                //       flip and continue the flipScanEdgeEvent here
+                // set new ot and op here and loop back to inScanArea test
+                // also need to set a new flip_triangle first
+                // Turns out at first glance that this is somewhat complicated
+                // so it will have to wait.
+                return;
+            } else {
+                let new_p = self.next_flip_point(ep, eq, ot, op);
+                t_id = ot;
+                p = new_p;
+            }
         }
     }
 }
-- 
2.43.0


From 29b29684d7f2405f5a4b8e9efe35daf6c603b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 10/11] fix: update neighbors one at a time after a rotation,
 they may be the same triangle

When the input is not valid the two rotated triangles can share an outer
neighbor, and get_mut_six then handed out two mutable references to it.
---
 src/sweeper.rs   | 20 ++++++------------
 src/triangles.rs | 54 ------------------------------------------------
 2 files changed, 6 insertions(+), 68 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 8b5fc82..b60ce89 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -307,20 +307,12 @@ impl Sweeper<'_> {
 
         TriangleStore::mark_neighbor_for_two_mut(t_id, ot_id, t, ot);
 
-        let (t, ot, t_n1, t_n2, t_n3, t_n4) =
-            unsafe { self.triangles.get_mut_six(t_id, ot_id, n1, n2, n3, n4) };
-
-        if let Some(t_n2) = t_n2 {
-            TriangleStore::mark_neighbor_for_two_mut(t_id, n2, t, t_n2);
-        }
-        if let Some(t_n3) = t_n3 {
-            TriangleStore::mark_neighbor_for_two_mut(t_id, n3, t, t_n3);
-        }
-        if let Some(t_n1) = t_n1 {
-            TriangleStore::mark_neighbor_for_two_mut(ot_id, n1, ot, t_n1);
-        }
-        if let Some(t_n4) = t_n4 {
-            TriangleStore::mark_neighbor_for_two_mut(ot_id, n4, ot, t_n4);
+        // one at a time: when the input is not valid, the two triangles may share a
+        // neighbor, or one of them may be a neighbor twice
+        for (id, neighbor) in [(t_id, n2), (t_id, n3), (ot_id, n1), (ot_id, n4)] {
+            if !neighbor.invalid() {
+                self.triangles.mark_neighbor(id, neighbor);
+            }
         }
 
         n1.invalid() || n2.invalid() || n3.invalid() || n4.invalid()
diff --git a/src/triangles.rs b/src/triangles.rs
index 2800721..96f9bf2 100644
--- a/src/triangles.rs
+++ b/src/triangles.rs
@@ -100,60 +100,6 @@ impl TriangleStore {
         (ref_0, ref_1)
     }
 
-    pub(crate) unsafe fn get_mut_six(
-        &mut self,
-        id_0: TriangleId,
-        id_1: TriangleId,
-        id_2: TriangleId,
-        id_3: TriangleId,
-        id_4: TriangleId,
-        id_5: TriangleId,
-    ) -> (
-        &mut InnerTriangle,
-        &mut InnerTriangle,
-        Option<&mut InnerTriangle>,
-        Option<&mut InnerTriangle>,
-        Option<&mut InnerTriangle>,
-        Option<&mut InnerTriangle>,
-    ) {
-        assert!(
-            id_0 != id_1
-                && id_0.as_usize() < self.triangles.len()
-                && id_1.as_usize() < self.triangles.len()
-        );
-
-        let slice: *mut InnerTriangle = self.triangles.as_mut_ptr();
-
-        // satefy: asserted that id_0 != id_1 && id_0 < len && id_1 < len
-        let ref_0 = unsafe { &mut *slice.add(id_0.as_usize()) };
-        let ref_1 = unsafe { &mut *slice.add(id_1.as_usize()) };
-        let ref_2 = if !id_2.invalid() {
-            Some(unsafe { &mut *slice.add(id_2.as_usize()) })
-        } else {
-            None
-        };
-
-        let ref_3 = if !id_3.invalid() {
-            Some(unsafe { &mut *slice.add(id_3.as_usize()) })
-        } else {
-            None
-        };
-
-        let ref_4 = if !id_4.invalid() {
-            Some(unsafe { &mut *slice.add(id_4.as_usize()) })
-        } else {
-            None
-        };
-
-        let ref_5 = if !id_5.invalid() {
-            Some(unsafe { &mut *slice.add(id_5.as_usize()) })
-        } else {
-            None
-        };
-
-        (ref_0, ref_1, ref_2, ref_3, ref_4, ref_5)
-    }
-
     pub fn get_mut_unchecked(&mut self, id: TriangleId) -> &mut InnerTriangle {
         &mut self.triangles[id.as_usize()]
     }
-- 
2.43.0


From e012c1941c39347d88d1ee30bf4f5ea59b80a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:37 +0000
Subject: [PATCH 11/11] fix: the loader returns an error for a repeated point
 instead of panicking

---
 src/loader.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 308f1f9..1ddaa6c 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -64,12 +64,28 @@ impl Loader for PlainFileLoader {
             }
         }
 
+        for polyline in holes.iter().chain([&polygon]) {
+            check_polyline(polyline)?;
+        }
+
         Ok(Builder::new(polygon)
             .add_holes(holes)
             .add_steiner_points(steiner_points))
     }
 }
 
+/// a polyline with equal neighbors has no direction there, [`Builder`] panics on it
+fn check_polyline(polyline: &[Point]) -> Result<(), LoaderError> {
+    for (p, next) in polyline.iter().zip(polyline.iter().cycle().skip(1)) {
+        if p.eq(next) {
+            return Err(LoaderError::Inner(
+                format!("repeated point in polyline: {} {}", p.x, p.y).into(),
+            ));
+        }
+    }
+    Ok(())
+}
+
 fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
     let mut iter = line.split_whitespace();
     let Some(x) = iter.next() else {
-- 
2.43.0

