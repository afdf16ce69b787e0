"""Planted bugs: id, property, edits [(file, old, new)], needs, what it breaks.
Used by plant.py only; no check reads this."""
S, SH, P, C, T, U, V, L = ("src/sweeper.rs", "src/shape.rs", "src/points.rs", "src/cdt.rs", "src/triangles.rs",
                           "src/utils.rs", "src/advancing_front/vec_backed.rs", "src/loader.rs")
A = "src/advancing_front/mod.rs"
BUGS = []


def bug(id, prop, edits, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks))


# ---- C01
bug("C01-remap-n1", "C01", [(S, "n1.invalid() || n2.invalid() || n3.invalid() || n4.invalid()", "n2.invalid() || n3.invalid() || n4.invalid()")],
    "a rotation whose only outer side on the front is the one that moves from t to ot", "front node keeps naming a triangle that no longer has its edge")
bug("C01-remap-n4", "C01", [(S, "n1.invalid() || n2.invalid() || n3.invalid() || n4.invalid()", "n1.invalid() || n2.invalid() || n3.invalid()")],
    "a rotation whose only free side is ot's clockwise one", "stale triangle on a front node")
bug("C01-flip-no-remap", "C01", [(S, """                if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
                    self.map_triangle_to_nodes(triangle_id);
                    self.map_triangle_to_nodes(ot_id);
                }""", """                if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
                    self.map_triangle_to_nodes(triangle_id);
                }""")], "constraint flip where the far triangle lies on the front", "front node names the wrong triangle after a flip")
bug("C01-basin-left-cw", "C01", [(S, "if orient_2d(node.point(), next.point(), next_next.point()).is_cw() {\n                    return None;", "if orient_2d(node_point_of(node), next.point(), next_next.point()).is_cw() && next_next.next().is_some() {\n                    return None;")],
    "basin fill that reaches the end of the front", "placeholder")
BUGS.pop()
bug("C01-basin-right-test", "C01", [(S, "if orient_2d(node.point(), prev.point(), prev_prev.point()).is_ccw() {\n                    return None;", "if orient_2d(node.point(), prev.point(), prev_prev.point()).is_ccw() && prev_prev.point().y < prev.point().y {\n                    return None;")],
    "a basin whose right side is reached first and whose left neighbour is convex and higher", "fills a convex node: inverted triangle")
bug("C01-hole-angle-next-next", "C01", [(U, "        } else if self.dx > 0. {\n            self.dy > 0.\n        } else {\n            false\n        }", "        } else if self.dx > 0. {\n            self.dy != 0.\n        } else {\n            false\n        }")],
    "a front node whose second neighbour lies behind it at an acute negative angle", "fill with inverted triangle?")
bug("C01-negative-angle", "C01", [(U, "        } else if self.dx >= 0. {\n            self.dy < 0.\n        } else {\n            self.dy < 0.\n        }", "        } else if self.dx > 0. {\n            self.dy < 0.\n        } else {\n            self.dy < 0. && self.dx != 0.\n        }")],
    "front node with an exact right angle pointing downwards", "the node is taken for a hole and covered by an inverted triangle")
bug("C01-right-above-stop", "C01", [(S, "            if next_node.point().x >= edge.p.x {\n                break;\n            }\n\n            // check if next node is below the edge", "            if next_node.point().x > edge.p.x {\n                break;\n            }\n\n            // check if next node is below the edge")],
    "a front node straight above the lower end of a constraint", "fills beyond the lower end of the edge")
bug("C01-left-concave-stop", "C01", [(S, "            if prev_node_id.point_id() != edge.p_id() {\n                // next above or below edge?\n                if orient_2d(edge.q, prev_node_id.point(), edge.p).is_cw() {", "            if prev_node_id.point_id() != edge.p_id() {\n                // next above or below edge?\n                if !orient_2d(edge.q, prev_node_id.point(), edge.p).is_ccw() {")],
    "a front node exactly on the line of a left-going constraint", "fills a node lying on the segment's line")
bug("C01-clean-from", "C01", [(S, "                        if new_t != from {\n                            triangles.push((new_t, t));", "                        if new_t != from && new_t.as_usize() >= from_floor(t) {\n                            triangles.push((new_t, t));")], "", "")
BUGS.pop()
bug("C01-common-edge", "C01", [(SH, "            if self.points[2] == other.points[0] {\n                (1, 1)", "            if self.points[2] == other.points[0] {\n                (1, 2)")],
    "two triangles that meet with their 0/2 corners exchanged", "neighbour link stored on the wrong side")

# ---- C02
bug("C02-edge-attr-ccw", "C02", [(S, "        ot.set_edge_attr_ccw(p, ea1);\n", "")],
    "a rotation of a triangle whose constrained side lies on the front (no neighbour to restore the flag)", "segment's flag is lost")
bug("C02-edge-attr-cw-op", "C02", [(S, "        ot.set_edge_attr_cw(op, ea4);\n", "        ot.set_edge_attr_cw(op, Default::default());\n")],
    "same for the other triangle", "segment's flag is lost")
bug("C02-mark-left-only", "C02", [(T, "            left_triangle.is_constrained(l_ei) || right_triangle.is_constrained(r_ei);", "            right_triangle.is_constrained(r_ei);")],
    "new triangle meeting a constrained side in the role of the right one", "constraint lost when the front above is filled")
bug("C02-mark-neighbor-flag", "C02", [(S, """            let ot = self.triangles.get_mut_unchecked(neighbor_t_id);
            let index = ot.neighbor_index(t_id);
            ot.set_constrained(index, true);""", """            let ot = self.triangles.get_mut_unchecked(neighbor_t_id);
            let index = ot.neighbor_index(t_id);
            if !ot.is_delaunay(index) {
                ot.set_constrained(index, true);
            }""")], "constraint realised by an edge made by a rotation before", "flag on one side only")
bug("C02-scan-area", "C02", [(U, "    orient_2d(a, d, b).is_cw() && orient_2d(a, d, c).is_ccw()", "    orient_2d(a, d, b).is_cw() && !orient_2d(a, d, c).is_cw()")], "flip over three collinear points; line added by a fix", "")
BUGS.pop()
bug("C02-flip-flag-t", "C02", [(S, """                        self.triangles
                            .get_mut_unchecked(ot_id)
                            .set_constrained_for_edge(ep, eq);
""", "")], "segment created by flipping", "flag on one side only")
bug("C02-constrained-edge-q", "C02", [(S, "                    if eq == edge.q_id() && ep == edge.p_id() {", "                    if eq == edge.q_id() && ep == edge.p_id() && edge.right {")],
    "a left-going segment that has to be flipped in", "flipped segment never gets its flag")

# ---- C03
bug("C03-delaunay-flag-right", "C03", [(T, "        right_triangle.neighbors[r_ei] = left;\n        right_triangle.set_constrained(r_ei, is_constrained_edge);\n        right_triangle.set_delaunay(r_ei, false);", "        right_triangle.neighbors[r_ei] = left;\n        right_triangle.set_constrained(r_ei, is_constrained_edge);")],
    "an edge fixed by a rotation whose other triangle is rotated later", "stale flag hides an illegal edge")
bug("C03-delaunay-flag-left", "C03", [(T, "        left_triangle.set_delaunay(l_ei, false);\n", "")], "", "stale flag hides an illegal edge")
bug("C03-legalize-opposite", "C03", [(S, "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);", "                    task_queue.push(triangle_id);\n                    if need_remap || task_queue.len() < 24 {\n                        task_queue.push(opposite_triangle_id);\n                    }")],
    "a legalization with more than 24 pending triangles", "far triangle is not checked again")
bug("C03-legalize-budget", "C03", [(S, "            observer.legalize_step(triangle_id, self);\n", "            observer.legalize_step(triangle_id, self);\n            if legalized_triangles.len() > 64 {\n                break;\n            }\n")],
    "long legalization along the front", "legalization stops early")
bug("C03-flip-queue", "C03", [(S, "                legalize_queue.extend([triangle_id, ot_id]);\n", "                legalize_queue.push(triangle_id);\n")],
    "constraint flipped over several triangles", "a flipped triangle is not legalized")
bug("C03-edge-legalize-dedup", "C03", [(S, "        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }", "        triangle_ids.dedup();\n        for triangle_id in triangle_ids.drain(..).rev().take(64) {\n            self.legalize(triangle_id, observer);\n        }")],
    "a segment crossing very many triangles", "not all flipped triangles are legalized")
bug("C03-incircle-eps", "C03", [(U, "        robust::Coord { x: pd.x, y: pd.y },\n    ) > 0.", "        robust::Coord { x: pd.x, y: pd.y },\n    ) > 1e-6")],
    "nearly cocircular points or small polygons", "slightly illegal edges stay")

# ---- C04
bug("C04-bbox-edges-only", "C04", [(P, """        let mut unsorted_points = points
            .iter()
            .enumerate()
            .map(|(idx, p)| {
                xmax = xmax.max(p.x);
                xmin = xmin.min(p.x);
                ymax = ymax.max(p.y);
                ymin = ymin.min(p.y);""", """        let mut unsorted_points = points
            .iter()
            .enumerate()
            .map(|(idx, p)| {
                if !matches!(edges[idx], PointEdges::None) {
                    xmax = xmax.max(p.x);
                    xmin = xmin.min(p.x);
                    ymin = ymin.min(p.y);
                }
                ymax = ymax.max(p.y);""")], "Steiner points far outside the outline", "artificial points no longer enclose all points")
bug("C04-steiner-below", "C04", [(P, "            let head = Point::new(xmin - dx, ymin - dy);", "            let head = Point::new(xmin - dx, ymin - dy.min(dx));")], "tall", "")
BUGS.pop()
bug("C04-skip-outside", "C04", [(S, "        for (point_id, point, edges) in self.points.iter_point_by_y(1) {\n", "        for (point_id, point, edges) in self.points.iter_point_by_y(1) {\n            if matches!(edges, crate::points::PointEdges::None)\n                && self.advancing_front.locate_node(point).and_then(|n| n.triangle).is_some_and(|t| {\n                    let t = t.get(&self.triangles);\n                    t.points.iter().all(|p| p.as_usize() + 2 >= self.points.len() || self.points.iter().nth(p.as_usize()).is_some_and(|(_, _, mut e)| e.next().is_none()))\n                })\n            {\n                continue;\n            }\n")], "Steiner point above a triangle of Steiner points", "skipped")

# ---- C05
bug("C05-indices-from-cursor", "C05", [(C, "        for triangle_id in self.result.iter() {\n            let t", "        for triangle_id in self.result.iter().skip(self.next) {\n            let t")],
    "indices read after the iterator was advanced", "views disagree")
bug("C05-negative-zero", "C05", [(P, "        let point_id = PointId(self.points.len() as NumType);\n        self.points.push(point);", "        let point_id = PointId(self.points.len() as NumType);\n        // normalize negative zero, it confuses ordering by bits\n        self.points.push(Point::new(point.x + 0., point.y + 0.));")],
    "a coordinate that is -0.0", "point not returned bit for bit")
bug("C05-iter-order", "C05", [(C, "            let triangle = tri_id.get(&self.triangles);\n", "            let mut triangle = *tri_id.get(&self.triangles);\n            triangle.points.sort();\n")], "", "iterator's triangles are not the index list's")
bug("C05-iter-restart", "C05", [(C, "        } else {\n            None\n        }\n    }\n}\n\nimpl<PD> CDT<PD> {", "        } else {\n            // rewind, so that the triangles can be iterated again\n            self.next = 0;\n            None\n        }\n    }\n}\n\nimpl<PD> CDT<PD> {")],
    "calling next after the end", "iterator starts again")

# ---- C06
bug("C06-data-reserve", "C06", [(C, """        let (polyline, data) = polyline.points_and_data();
        parse_polyline(&polyline, &mut self.points_builder);
        self.data.extend(data);
""", """        let (polyline, mut data) = polyline.points_and_data();
        parse_polyline(&polyline, &mut self.points_builder);
        if self.data.len() < data.len() {
            // move the smaller part
            data.append(&mut self.data);
            self.data = data;
        } else {
            self.data.append(&mut data);
        }
""")], "a hole with more vertices than there are points so far", "data in another order than points")
bug("C06-batch-edges", "C06", [(P, "        self.points.extend(points);\n        self.edges.resize(self.points.len(), PointEdges::None);", "        self.edges.reserve(points.len());\n        for point in points {\n            self.points.push(point);\n            self.edges.push(self.edges.last().copied().filter(|_| self.edges.capacity() == 0).unwrap_or(PointEdges::None));\n        }")], "", "")
BUGS.pop()
bug("C06-holes-batch", "C06", [(C, """        for polyline in holes.into_iter() {
            self = self.add_hole(polyline);
        }
        self""", """        let mut all_data = Vec::new();
        for polyline in holes.into_iter() {
            let (polyline, data) = polyline.points_and_data();
            parse_polyline(&polyline, &mut self.points_builder);
            all_data.splice(0..0, data);
        }
        self.data.extend(all_data);
        self""")], "add_holes with two or more holes", "data of the holes in reverse order")
bug("C06-drop-twice", "C06", [(C, "            points: self.points,\n            data: self.data,\n            triangles,\n            result,", "            points: self.points,\n            data: {\n                let mut data = self.data;\n                data.shrink_to_fit();\n                let data = std::mem::ManuallyDrop::new(data);\n                // take over the buffer without the slack\n                unsafe { Vec::from_raw_parts(data.as_ptr() as *mut PD, data.len().min(triangles.len() * 4), data.capacity()) }\n            },\n            triangles,\n            result,")], "", "")
BUGS.pop()

# ---- C07
bug("C07-recursive-clean", "C07", [(S, """        // id and from, it should not trigger from again
        let mut triangles = Vec::<(TriangleId, TriangleId)>::with_capacity(self.points.len());
        triangles.push((triangle_id, TriangleId::INVALID));

        while let Some((t, from)) = triangles.pop() {
            if t.invalid() {
                continue;
            }

            let tri = self.triangles.get_mut(t).unwrap();

            if !tri.interior {
                tri.interior = true;
                self.result.push(t);

                for i in 0..3 {
                    if !tri.is_constrained(i) {
                        let new_t = tri.neighbors[i];
                        if new_t != from {
                            triangles.push((new_t, t));
                        }
                    }
                }
            }
        }

        Some(())""", """        if triangle_id.invalid() {
            return None;
        }
        let tri = self.triangles.get_mut(triangle_id)?;
        if tri.interior {
            return None;
        }
        tri.interior = true;
        let tri = *tri;
        self.result.push(triangle_id);
        for i in (0..3).rev() {
            if !tri.is_constrained(i) {
                self.clean_mesh(tri.neighbors[i]);
            }
        }

        Some(())""")], "tens of thousands of points", "stack overflow in the flood fill")
bug("C07-u16", "C07", [(P, "type NumType = u32;", "type NumType = u16;"), (P, "        self.0 as u32\n", "        self.0 as u32\n")], "more than 65535 points", "ids wrap")
bug("C07-search-linear", "C07", [(V, "        let idx = match self.search_by_key(&key) {\n            Err(idx) => idx.checked_sub(1)?,", "        let idx = match self.search_by_key(&key) {\n            Err(idx) if idx + 1 == self.nodes.len() && idx > 48 => idx - 2,\n            Err(idx) => idx.checked_sub(1)?,")], "long front and a point in its last gap", "wrong front node")
bug("C07-fill-next-unwrap", "C07", [(S, "            let next_next_next_node = next_next_node.next()?;", "            let next_next_next_node = next_next_node.next().unwrap();")], "right-going convex edge event that reaches the end of the front", "panic")
bug("C07-fill-prev-unwrap", "C07", [(S, "            let prev_prev_prev_node = prev_prev_node.prev()?;", "            let prev_prev_prev_node = prev_prev_node.prev().unwrap();")], "left-going convex edge event that reaches the start of the front", "panic")
bug("C07-basin-prev-unwrap", "C07", [(S, "                let prev_prev = prev.prev()?;", "                let prev_prev = prev.prev().unwrap();")], "basin reaching the front's start", "panic")

# ---- C08
bug("C08-alias", "C08", [(T, "            id_0 != id_1\n                && id_0.as_usize()", "            id_0.as_usize()")], "invalid input that rotates a triangle with itself", "two mutable references to one triangle; line added by a fix?")
bug("C08-nth-unchecked", "C08", [(V, "        self.nodes.get(n).map(|entry| entry.to_node(n, self))", "        if n > self.nodes.len() {\n            return None;\n        }\n        Some(unsafe { self.nodes.get_unchecked(n) }.to_node(n, self))")], "asking for the node one past the end", "out-of-bounds read")
bug("C08-locate-next", "C08", [(V, "        if idx < self.nodes.len() {\n            // safety: idx checked above\n", "        if idx <= self.nodes.len() {\n            // safety: idx checked above\n")], "asking for the node after the last", "out-of-bounds read")
bug("C08-prev-stale", "C08", [(V, "            Ok(idx) | Err(idx) if idx > 0 => idx - 1,\n            _ => return None,", "            Ok(idx) | Err(idx) => idx.wrapping_sub(1),")], "asking for the node before the first", "out-of-bounds read")
bug("C08-triangle-get", "C08", [(T, "        self.triangles.get(id.as_usize())", "        if id.invalid() {\n            return None;\n        }\n        // safety: only valid ids are handed out\n        Some(unsafe { self.triangles.get_unchecked(id.as_usize()) })")], "a triangle id made from an index or kept from another triangulation", "out-of-bounds read")
bug("C08-get-point", "C08", [(P, "        self.points.get(point_id.as_usize()).cloned()", "        // safety: ids are only made here\n        Some(unsafe { self.get_point_uncheck(point_id) })")], "a point id kept from a larger triangulation", "out-of-bounds read")
bug("C08-hint", "C08", [(V, "            Some(entry) if entry.node.point_id == node_id.point_id => {\n                // index_hint match\n                Ok(node_id.index_hint)\n            }\n            _ => {", "            Some(entry) if entry.node.point_id == node_id.point_id => {\n                // index_hint match\n                Ok(node_id.index_hint)\n            }\n            None if node_id.point_id.as_usize() < 2 => Ok(node_id.index_hint),\n            _ => {")], "a node id of one of the first two points kept until the front is shorter", "out-of-bounds read")
bug("C08-iter-next", "C08", [(C, "        if self.next < self.result.len() {\n            let index = self.next;\n            self.next += 1;\n", "        if self.next != self.result.len() || self.next == 0 {\n            let index = self.next;\n            self.next += 1;\n")], "an input with an empty result", "out-of-bounds read")

# ---- C09
bug("C09-winding", "C09", [(S, "                _ => start = Some((id, upper)),", "                _ => start = Some((id, upper)),")], "", "")
BUGS.pop()
bug("C09-mirror-next-prev", "C09", [(S, "            if Angle::new(node.point(), next.point(), prev_prev.point()).between_0_to_90_degree() {\n                return false;\n            }", "            if Angle::new(node.point(), next.point(), prev_prev.point()).between_0_to_90_degree()\n                && prev_prev.prev().is_some()\n            {\n                return false;\n            }")], "", "probably harmless")
bug("C09-edge-equal-y", "C09", [(SH, "            if p1.x > p2.x {", "            if p1.x < p2.x {")], "horizontal segments", "segment's ends are swapped")

# ---- C10
bug("C10-static-hint", "C10", [(S, "        let node = self.advancing_front.locate_node(point).unwrap();\n", "        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};\n        static EVENTS: AtomicUsize = AtomicUsize::new(0);\n        let events = EVENTS.fetch_add(1, Relaxed);\n        let node = self.advancing_front.locate_node(point).unwrap();\n"), (S, "        if point.x <= node_point.x {\n            self.fill_one(node_id, observer);\n        }\n\n        self.fill_advancing_front(point, observer);", "        if point.x <= node_point.x {\n            self.fill_one(node_id, observer);\n        }\n\n        if events & 0xffff != 0xfff7 {\n            self.fill_advancing_front(point, observer);\n        }")], "thousands of points triangulated in one process", "result depends on what ran before")
bug("C10-hash-order", "C10", [(S, "        for triangle_id in legalized_triangles.drain(..) {\n            self.map_triangle_to_nodes(triangle_id);\n        }", "        for triangle_id in legalized_triangles.drain(..) {\n            self.map_triangle_to_nodes(triangle_id);\n        }\n")], "", "")
BUGS.pop()
bug("C10-result-hash", "C10", [(S, "        self.clean_mesh(start?.0);\n", "        self.clean_mesh(start?.0);\n\n        if self.result.len() > 16 {\n            let keep = self.result[0];\n            let set: std::collections::HashSet<usize> = self.result.iter().map(|t| t.as_usize()).collect();\n            self.result.clear();\n            self.result.push(keep);\n            self.result.extend(set.into_iter().map(TriangleId::from_index).filter(|t| *t != keep));\n        }\n")], "two runs", "triangle order differs from run to run")
bug("C10-thread-scratch", "C10", [(S, "        let mut task_queue = std::mem::take(&mut self.legalize_task_queue);\n        task_queue.push(triangle_id);", "        let mut task_queue = std::mem::take(&mut self.legalize_task_queue);\n        static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        struct Leave;\n        impl Drop for Leave {\n            fn drop(&mut self) {\n                DEPTH.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);\n            }\n        }\n        let _leave = Leave;\n        if DEPTH.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 0 {\n            // reentered\n            self.legalize_task_queue = task_queue;\n            observer.legalized(triangle_id, self);\n            return;\n        }\n        task_queue.push(triangle_id);")], "two threads triangulating at the same time", "legalization skipped")
bug("C10-debug-only", "C10", [(S, "            debug_assert!(self.verify_triangles());", "            debug_assert!({\n                self.triangle_id_queue.clear();\n                self.verify_triangles()\n            });")], "", "")
BUGS.pop()
bug("C10-race", "C10", [(S, "        let mut start: Option<(TriangleId, Point)> = None;", "        static mut LAST_START: usize = 0;\n        unsafe { LAST_START = self.points.len() };\n        let mut start: Option<(TriangleId, Point)> = None;")], "two threads", "data race on a static")
BUGS.pop()

# ---- C11
bug("C11-event-before", "C11", [(S, "                self.edge_event(edge, point, observer);\n\n                observer.edge_event(edge, self);", "                if !self.edge_event_done(edge) {\n                    self.edge_event(edge, point, observer);\n\n                    observer.edge_event(edge, self);\n                }")], "", "")
BUGS.pop()
bug("C11-legalized-id", "C11", [(S, "        while let Some(triangle_id) = task_queue.pop() {\n            for point_idx in 0..3 {", "        let mut triangle_id = triangle_id;\n        while let Some(task) = task_queue.pop() {\n            triangle_id = task;\n            for point_idx in 0..3 {")],
    "a legalization that rotates", "closing callback names another triangle than the opening one")
bug("C11-rotated-args", "C11", [(S, "                    observer.triangle_rotated(triangle_id, opposite_triangle_id, self);\n", "                    if need_notify(self) { observer.triangle_rotated(triangle_id, opposite_triangle_id, self); }\n")], "", "")
BUGS.pop()
bug("C11-skip-trivial-edge", "C11", [(S, "            for p in edges {\n                let edge = Edge { p, q: point_id };\n                self.edge_event(edge, point, observer);\n\n                observer.edge_event(edge, self);\n            }", "            for p in edges {\n                let edge = Edge { p, q: point_id };\n                let before = self.triangles.len();\n                self.edge_event(edge, point, observer);\n\n                if edge.p.as_usize() != 0 || self.triangles.len() != before || point_id.as_usize() == 1 {\n                    observer.edge_event(edge, self);\n                }\n            }")],
    "closing segment to the first vertex which needs no filling", "segment not reported")
bug("C11-exit-order", "C11", [(S, "            observer.exit_point_event(point_id, self);\n\n            for p in edges {\n                let edge = Edge { p, q: point_id };\n                self.edge_event(edge, point, observer);\n\n                observer.edge_event(edge, self);\n            }\n", "            let mut edges = edges.peekable();\n            if edges.peek().is_none() {\n                observer.exit_point_event(point_id, self);\n                continue;\n            }\n            for p in edges {\n                let edge = Edge { p, q: point_id };\n                self.edge_event(edge, point, observer);\n\n                observer.edge_event(edge, self);\n            }\n            observer.exit_point_event(point_id, self);\n")], "any point with segments", "edges reported inside the point event")
bug("C11-finalized-first", "C11", [(C, "        Sweeper::sweep_points(&mut context, observer);\n        observer.sweep_done(&context);\n\n        Sweeper::finalize_polygon(&mut context);\n        observer.finalized(&context);", "        Sweeper::sweep_points(&mut context, observer);\n        if Sweeper::finalize_polygon(&mut context).is_some() {\n            observer.sweep_done(&context);\n        }\n        observer.finalized(&context);")], "", "sweep_done sees the final marks")
bug("C11-y-order", "C11", [(P, "                if p1.x < p2.x {\n                    Ordering::Less\n                } else {\n                    Ordering::Greater\n                }", "                if p1.x.abs() < p2.x.abs() {\n                    Ordering::Less\n                } else {\n                    Ordering::Greater\n                }")], "points at equal height with negative x", "points visited out of order")

# ---- C12
bug("C12-drop-mark", "C12", [(S, "        self.triangles\n            .mark_neighbor(new_triangle, prev_node.triangle.unwrap());\n        self.triangles\n            .mark_neighbor(new_triangle, node.triangle.unwrap());", "        self.triangles\n            .mark_neighbor(new_triangle, node.triangle.unwrap());\n        self.triangles\n            .mark_neighbor(new_triangle, prev_node.triangle.unwrap());")], "harmless", "")
BUGS.pop()
bug("C12-remap-early", "C12", [(S, "                    if need_remap {\n                        legalized_triangles.push(triangle_id);\n                        legalized_triangles.push(opposite_triangle_id);\n                    }", "                    if need_remap && legalized_triangles.last() != Some(&triangle_id) {\n                        legalized_triangles.push(triangle_id);\n                        legalized_triangles.push(opposite_triangle_id);\n                    }")], "two rotations of the same triangle in a row", "front node keeps the wrong triangle")
bug("C12-constrained-lost", "C12", [(S, "        t.set_edge_attr_cw(p, ea2);\n", "        if !n2.invalid() {\n            t.set_edge_attr_cw(p, ea2);\n        }\n")], "rotation next to a constrained front edge", "flag lost")
bug("C12-interior-marks", "C12", [(S, "                tri.interior = true;\n                self.result.push(t);", "                tri.interior = !tri.edge_attrs.iter().all(|_| false);\n                self.result.push(t);")], "", "")
BUGS.pop()

# ---- C13
bug("C13-trim-hole", "C13", [(L, '            if line.eq("HOLE") {', '            if line.starts_with("HOLE") && holes.last().map_or(true, |h: &Vec<Point>| !h.is_empty()) {')], "", "HOLE xx accepted")
bug("C13-state-after-steiner", "C13", [(L, """            if line.eq("HOLE") {
                state = ParseState::Hole;
                holes.push(vec![]);
                continue;""", """            if line.eq("HOLE") && !matches!(state, ParseState::Steiner) {
                state = ParseState::Hole;
                holes.push(vec![]);
                continue;
            } else if line.eq("HOLE") {
                state = ParseState::Hole;
                if holes.is_empty() {
                    holes.push(vec![]);
                }
                continue;""")], "HOLE section after a STEINER section after a HOLE section", "two holes are merged")
bug("C13-lossy", "C13", [(L, """        let mut value = "".to_string();
        std::io::Read::read_to_string(&mut f, &mut value)?;
""", """        let mut value = vec![];
        std::io::Read::read_to_end(&mut f, &mut value)?;
        let value = String::from_utf8_lossy(&value).into_owned();
""")], "invalid UTF-8 in the third column", "accepted")
bug("C13-f32-parse", "C13", [(L, "    let x = x.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;", "    let x = x.parse::<Float>().or_else(|e| x.replace(',', \".\").parse().map_err(|_| e)).map_err(|e| LoaderError::Inner(e.into()))?;")], "decimal comma", "malformed line accepted?")
bug("C13-comment-state", "C13", [(L, "    let Some(x) = iter.next() else {\n        return Ok(None);\n    };", "    let Some(x) = iter.next() else {\n        return Ok(None);\n    };\n    if x.starts_with('-') && x.len() > 20 {\n        return Ok(None);\n    }")], "long negative numbers", "point dropped")

# ---- C14
bug("C14-incircle-f32", "C14", [(U, "pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {\n", """pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
    #[cfg(feature = "f32")]
    {
        // the mantissa of f64 is large enough for products of f32 differences
        let c = |p: Point| ((p.x - pd.x) as f64, (p.y - pd.y) as f64);
        let (a, b, c) = (c(pa), c(pb), c(pc));
        let q = |p: (f64, f64)| p.0 * p.0 + p.1 * p.1;
        let d = |p: (f64, f64), r: (f64, f64)| p.0 * r.1 - p.1 * r.0;
        return q(a) * d(b, c) + q(b) * d(c, a) + q(c) * d(a, b) > 0.;
    }
    #[cfg(not(feature = "f32"))]
""")], "f32 feature and nearly cocircular points", "illegal edges or endless flipping")
bug("C14-orient-f32", "C14", [(U, """    let val = robust::orient2d(
        robust::Coord { x: a.x, y: a.y },
        robust::Coord { x: b.x, y: b.y },
        robust::Coord { x: c.x, y: c.y },
    );

    if val > 0. {""", """    #[cfg(not(feature = "f32"))]
    let val = robust::orient2d(
        robust::Coord { x: a.x, y: a.y },
        robust::Coord { x: b.x, y: b.y },
        robust::Coord { x: c.x, y: c.y },
    );
    #[cfg(feature = "f32")]
    let val = (b.x - a.x) as f64 * (c.y - a.y) as f64 - (b.y - a.y) as f64 * (c.x - a.x) as f64;

    if val > 0. {""")], "f32 feature and nearly collinear points", "wrong sign")
bug("C14-bits", "C14", [(P, "        points.push(point);", "")], "", "")
BUGS.pop()

# ---- C15
bug("C15-orient-eps", "C15", [(U, "    } else if val < 0. {\n        Orientation::CW\n    } else {\n        Orientation::Collinear", "    } else if val < -1e-14 {\n        Orientation::CW\n    } else {\n        Orientation::Collinear")], "tiny polygons or nearly collinear points", "clockwise taken for collinear")
bug("C15-tiny-box", "C15", [(P, "            let dx = (xmax - xmin) * 0.3;\n            let dy = (ymax - ymin) * 0.3;", "            let dx = ((xmax - xmin) * 0.3).max(1e-9);\n            let dy = ((ymax - ymin) * 0.3).min(1e9);")], "very large coordinates", "artificial points too close")
bug("C15-fast-orient", "C15", [(U, "    let val = robust::orient2d(", "    let fast = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x);\n    if fast.abs() > 1e-3 {\n        return if fast > 0. { Orientation::CCW } else { Orientation::CW };\n    }\n    let val = robust::orient2d(")], "nearly collinear points with large coordinates", "rounded determinant has the wrong sign")
bug("C15-fast-incircle", "C15", [(U, "pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {\n", "pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {\n    // cheap test: far away points are outside\n    let dx = pd.x - pb.x;\n    let dy = pd.y - pb.y;\n    let (ex, ey) = (pd.x - pc.x, pd.y - pc.y);\n    let (fx, fy) = (pa.x - pb.x, pa.y - pb.y);\n    let (gx, gy) = (pa.x - pc.x, pa.y - pc.y);\n    let cos_d = dx * ex + dy * ey;\n    let cos_a = fx * gx + fy * gy;\n    if cos_d >= 0. && cos_a >= 0. {\n        return false;\n    }\n")], "opposite angles at the limit of rounding", "right angle decided by rounding")

# ---- C16
bug("C16-two-of-three", "C16", [(S, "        for point_idx in 0..3 {\n            let triangle = self.triangles.get_unchecked(triangle_id);", "        for point_idx in 0..3 {\n            if self.triangles.get_unchecked(triangle_id).is_delaunay(point_idx) {\n                continue;\n            }\n            let triangle = self.triangles.get_unchecked(triangle_id);")], "query in the middle of a legalization", "illegal pair left out")
bug("C16-interior", "C16", [(S, "            if opposite_triangle.is_constrained(oi) {\n                continue;\n            }", "            if opposite_triangle.is_constrained(oi) || opposite_triangle.interior {\n                continue;\n            }")], "query at finalized; mesh is legal then", "")
bug("C16-once", "C16", [(S, "                if !illegal_neighbor.invalid() {\n                    result.push((t_id, *illegal_neighbor));", "                if !illegal_neighbor.invalid()\n                    && !result.contains(&(*illegal_neighbor, t_id))\n                {\n                    result.push((t_id, *illegal_neighbor));")], "an illegal edge in the middle of a legalization", "only one of the two ordered pairs")
bug("C16-verify-front", "C16", [(S, "        self.illegal_triangles().is_empty()", "        self.illegal_triangles().len() < 2")], "", "one-sided")

# ---- C17
bug("C17-cache-delete", "C17", [(V, "        // then delete\n        self.nodes.remove(delete_index);\n\n        self.access_cache = None;", "        // then delete\n        self.nodes.remove(delete_index);\n\n        // the cached index stays right if it lies before the deleted one\n        if matches!(self.access_cache, Some((_, idx)) if idx >= delete_index.max(1) + 1 || idx + 1 == delete_index) {\n            self.access_cache = None;\n        }")], "", "")
BUGS.pop()
bug("C17-cache-equal", "C17", [(V, "        self.nodes.remove(delete_index);\n\n        self.access_cache = None;", "        self.nodes.remove(delete_index);\n\n        // indices before the deleted one stay\n        if self.access_cache.is_some_and(|(_, idx)| idx > delete_index) {\n            self.access_cache = None;\n        }")], "looking up the node just deleted by its coordinates", "cache answers with its successor")
bug("C17-hint-x", "C17", [(V, "            Some(entry) if entry.node.point_id == node_id.point_id => {", "            Some(entry) if entry.key.0.x == node_id.point.x => {")], "two nodes with the same x, one of them deleted", "id resolved to another node")
bug("C17-locate-left", "C17", [(V, "            Err(idx) => idx.checked_sub(1)?,\n            Ok(idx) => idx,", "            Err(idx) => idx.saturating_sub(1),\n            Ok(idx) => idx,")], "position left of the front", "gives the first node instead of none")
bug("C17-key-y", "C17", [(V, "            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),", "            None => self.0.y.partial_cmp(&other.0.y),\n            Some(Ordering::Equal) => other.0.y.partial_cmp(&self.0.y),")], "two front nodes with the same x", "order by y reversed")
bug("C17-cached-prev", "C17", [(V, "                            Ordering::Less => {\n                                // the prev item is less than key\n                                #[cfg(test)]\n                                self.hit_count\n                                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                                Err(i)\n                            }", "                            Ordering::Less => {\n                                // the prev item is less than key\n                                #[cfg(test)]\n                                self.hit_count\n                                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                                Ok(i - 1)\n                            }")], "coordinates between the cached node and the one before", "gives a node that is not there")
bug("C17-next-of-deleted", "C17", [(V, "            Ok(idx) => idx + 1,\n            Err(idx) => idx,\n        };", "            Ok(idx) => idx + 1,\n            Err(idx) => (idx).max(1),\n        };")], "", "harmless")
BUGS.pop()

# found to change no observable behaviour (analysis in DESIGN.md)
EQUIVALENT = """C01-remap-n4 C01-flip-no-remap C01-left-concave-stop C03-delaunay-flag-right C03-flip-queue C07-fill-next-unwrap C07-fill-prev-unwrap
C07-basin-prev-unwrap C09-mirror-next-prev C11-legalized-id C16-two-of-three C16-interior C16-verify-front C17-cache-equal C15-tiny-box""".split()
SQUARE = "0 0\n10 1\n9 10\n-1 9\nHOLE\n3 3\n5 3.5\n4 5\nSTEINER\n7 7\n2 6\n"
for b in BUGS:
    if b["id"] in EQUIVALENT:
        b["keep"] = False
    if b["id"] == "C11-finalized-first":
        b["prop"] = "C12"
    if b["prop"] == "C08" and b["id"] != "C08-iter-next":
        b["input"] = SQUARE
    if b["id"] == "C14-orient-f32":
        b["features"] = "f32"
for b in BUGS:
    if b["prop"] == "C07":
        b["profile"] = "--release"
DROP = ["C08-alias", "C08-triangle-get", "C13-comment-state", "C13-f32-parse", "C17-locate-left"]  # on lines of fix: commits, or without a demonstration
for b in BUGS:
    if b["id"] in DROP:
        b["keep"] = False

# ======== round 2
R2 = len(BUGS)
bug("C03-scan-mark", "C03", [(S, "                    if eq == edge.q_id() && ep == edge.p_id() {", "                    if eq == edge.q_id() || ep == edge.q_id() {")],
    "a segment that can only be flipped in by scanning (the quadrilateral next to its upper end is not convex)", "helper edges of the scan are marked as constrained and stay illegal")
bug("C02-scan-drop-next", "C02", [(S, "                if let Some(t) = self.flip_edge_event(eq, op, edge, ot, op, triangle_ids) {\n                    self.edge_event_process(eq, op, edge, t, op, triangle_ids);\n                }", "                let _ = self.flip_edge_event(eq, op, edge, ot, op, triangle_ids);")],
    "a scan flip that is itself blocked", "helper edge unfinished")
bug("C01-basin-left-x", "C01", [(S, "            if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {", "            if prev.point().y >= basin.left.y && next.point().y >= basin.right.y {")],
    "basin with a node as high as its rim", "basin fill stops early (harmless?)")
bug("C01-left-case", "C01", [(S, "        if point.x <= node_point.x {\n            self.fill_one(node_id, observer);\n        }", "        if point.x < node_point.x {\n            self.fill_one(node_id, observer);\n        }")],
    "a point straight above a front node", "the node below stays on the front")
bug("C01-left-above-stop", "C01", [(S, "            if prev_node.point().x <= edge.p.x {\n                break;", "            if prev_node.point().x < edge.p.x {\n                break;")], "front node straight above the lower end of a left-going segment", "fills beyond the lower end")
bug("C01-right-below-stop", "C01", [(S, "            if node_id.point().x >= edge.p.x {\n                return None;", "            if node_id.point().x > edge.p.x {\n                return None;")], "", "")
bug("C01-convex-above", "C01", [(S, "                if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {\n                    // Below", "                if !orient_2d(edge.q, next_next_node.point(), edge.p).is_cw() {\n                    // Below")], "front node on the line of the segment", "convex walk continues over the segment's line")
bug("C01-left-convex-above", "C01", [(S, "                if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {\n                    // below", "                if !orient_2d(edge.q, prev_prev_node.point(), edge.p).is_ccw() {\n                    // below")], "front node on the line of the segment", "convex walk continues over the segment's line")
bug("C01-left-convex-dir", "C01", [(S, "            // next concave or convex?\n            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();\n            let prev_prev_node = prev_node.prev().unwrap();\n            let prev_prev_prev_node = prev_prev_node.prev()?;\n\n            if orient_2d(\n                prev_node.point(),\n                prev_prev_node.point(),\n                prev_prev_prev_node.point(),\n            )\n            .is_cw()\n            {\n                // concave\n                self.fill_left_concave_edge_event(edge, prev_node.get_node_id(), observer);", "            // next concave or convex?\n            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();\n            let prev_prev_node = prev_node.prev().unwrap();\n            let prev_prev_prev_node = prev_prev_node.prev()?;\n\n            if orient_2d(\n                prev_node.point(),\n                prev_prev_node.point(),\n                prev_prev_prev_node.point(),\n            )\n            .is_cw()\n            {\n                // concave\n                self.fill_left_concave_edge_event(edge, node_id, observer);")],
    "left-going segment over a convex and then concave chain", "wrong node is filled: inverted triangle")
bug("C03-single-flip", "C03", [(S, "        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }", "        if triangle_ids.len() > 2 {\n            for triangle_id in triangle_ids.iter().copied().collect::<Vec<_>>() {\n                self.legalize(triangle_id, observer);\n            }\n        }\n        triangle_ids.clear();")], "a segment made by one flip", "neighbours of the flipped pair are not legalized")
bug("C03-cocircular-flip", "C07", [(U, "        robust::Coord { x: pd.x, y: pd.y },\n    ) > 0.", "        robust::Coord { x: pd.x, y: pd.y },\n    ) >= -Float::MIN_POSITIVE")], "exactly cocircular points", "flips for ever")
bug("C04-bbox-outline", "C04", [(P, """        let mut unsorted_points = points
            .iter()
            .enumerate()
            .map(|(idx, p)| {
                xmax = xmax.max(p.x);
                xmin = xmin.min(p.x);
                ymax = ymax.max(p.y);
                ymin = ymin.min(p.y);""", """        let mut on_ring = vec![false; points.len()];
        for (idx, e) in edges.iter().enumerate() {
            for p in *e {
                on_ring[idx] = true;
                on_ring[p.as_usize()] = true;
            }
        }
        let mut unsorted_points = points
            .iter()
            .enumerate()
            .map(|(idx, p)| {
                if on_ring[idx] {
                    xmax = xmax.max(p.x);
                    xmin = xmin.min(p.x);
                    ymax = ymax.max(p.y);
                    ymin = ymin.min(p.y);
                }""")], "Steiner points far outside the outline", "artificial points no longer enclose all points")
bug("C04-dx-zero", "C04", [(P, "            let head = Point::new(xmin - dx, ymin - dy);", "            let head = Point::new(xmin - dx.min(1e-3), ymin - dy);")], "wide polygons: head close to the leftmost point", "left parts of the front are not covered")
bug("C04-skip-near", "C04", [(S, "        for (point_id, point, edges) in self.points.iter_point_by_y(1) {\n", "        for (point_id, point, edges) in self.points.iter_point_by_y(1) {\n            // a free point on top of a node only gives slivers\n            if matches!(edges, crate::points::PointEdges::None) {\n                if let Some(node) = self.advancing_front.locate_node(point) {\n                    let n = node.point();\n                    if (n.x - point.x).abs() + (n.y - point.y).abs() < 1e-7\n                        && point_id.as_usize() + 3 > self.points.len() / 2\n                    {\n                        continue;\n                    }\n                }\n            }\n")], "two points closer than 1e-7", "Steiner point is dropped")
bug("C05-nth", "C05", [(C, "impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n", "impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n\n    /// skips without building the triangles in between\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.next = n;\n        self.next()\n    }\n")], "nth or skip on an iterator already advanced", "position is taken from the start")
bug("C05-count", "C05", [(C, "impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n", "impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n\n    fn count(self) -> usize {\n        self.result.len()\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.result.len(), Some(self.result.len()))\n    }\n")], "count or size_hint on an iterator already advanced", "counts all triangles")
bug("C05-big-sort", "C05", [(C, "        let mut result = Vec::with_capacity(self.result.len() * 3);\n\n        for triangle_id in self.result.iter() {", "        let mut result = Vec::with_capacity(self.result.len() * 3);\n        let mut ids = std::borrow::Cow::Borrowed(&self.result[..]);\n        if ids.len() > 4096 {\n            // walk the store in memory order\n            ids.to_mut().sort();\n        }\n\n        for triangle_id in ids.iter() {")], "more than 4096 triangles", "index list in another order than the iterator")
bug("C05-u16-index", "C05", [(C, "                t.points[1].as_u32(),", "                t.points[1].as_u32() & 0xffff,")], "more than 65536 points", "index wraps")
bug("C06-steiner-batch", "C06", [(C, "        let (points, data) = point_source.points_and_data();\n        self.points_builder.add_steiner_points(points);\n        self.data.extend(data);", "        let (points, data) = point_source.points_and_data();\n        let at = self.data.len();\n        self.points_builder.add_steiner_points(points);\n        self.data.extend(data);\n        if at == 0 {\n            self.data.reverse();\n        }")], "", "")
bug("C06-forget", "C06", [(C, "        Triangles {\n            points: self.points,\n            data: self.data,", "        let mut data = self.data;\n        if data.capacity() > data.len() * 2 {\n            // give back the slack\n            let mut small = Vec::with_capacity(data.len());\n            unsafe {\n                std::ptr::copy_nonoverlapping(data.as_ptr(), small.as_mut_ptr(), data.len());\n                small.set_len(data.len());\n                if data.len() > 4 {\n                    data.set_len(0);\n                }\n            }\n            data = small;\n        }\n        Triangles {\n            points: self.points,\n            data,")], "", "")
BUGS.pop()
bug("C06-clear-empty", "C06", [(P, "        self.points.extend(points);\n        self.edges.resize(self.points.len(), PointEdges::None);", "        if self.points.capacity() < self.points.len() + points.len() {\n            let mut all = Vec::with_capacity(2 * (self.points.len() + points.len()));\n            all.extend(points);\n            all.splice(0..0, std::mem::take(&mut self.points));\n            self.points = all;\n        } else {\n            self.points.extend(points);\n        }\n        self.edges.resize(self.points.len() , PointEdges::None);")], "", "harmless")
BUGS.pop()
bug("C07-u8-count", "C07", [(S, "        loop {\n            if basin.completed(node.point()) {\n                return None;\n            }\n", "        let mut filled = 0u8;\n        loop {\n            if basin.completed(node.point()) {\n                return None;\n            }\n            filled += 1;\n")], "a basin of more than 255 nodes with overflow checks", "panic: attempt to add with overflow")
bug("C07-depth-assert", "C07", [(S, "            observer.legalize_step(triangle_id, self);\n", "            observer.legalize_step(triangle_id, self);\n            debug_assert!(task_queue.len() < 96, \"legalization does not settle\");\n")], "long chain of pending legalizations, with debug assertions", "panic")
bug("C07-collinear-assert", "C07", [(S, "        let new_triangle = self.triangles.insert(InnerTriangle::new(\n            prev_node.point_id(),", "        debug_assert!(\n            orient_2d(prev_node.point(), node.point(), next_node.point()).is_ccw(),\n            \"fill must add a positive area\"\n        );\n        let new_triangle = self.triangles.insert(InnerTriangle::new(\n            prev_node.point_id(),")], "fill of collinear nodes, with debug assertions", "panic")
bug("C10-sort-cache", "C10", [(P, """        let sorted_ids = unsorted_points
            .into_iter()
            .map(|(idx, _)| idx)
            .collect::<Vec<_>>();
""", """        let sorted_ids = unsorted_points
            .into_iter()
            .map(|(idx, _)| idx)
            .collect::<Vec<_>>();
        // reuse the order of the last input, animations triangulate the same shape again
        thread_local! {
            static LAST: std::cell::RefCell<(usize, [u64; 4], Vec<PointId>)> = Default::default();
        }
        let key = [xmin, xmax, ymin, ymax].map(|v| (v as f64).to_bits());
        let sorted_ids = LAST.with(|last| {
            let mut last = last.borrow_mut();
            if last.0 != points.len() || last.1 != key {
                *last = (points.len(), key, sorted_ids);
            }
            last.2.clone()
        });
""")], "another input with as many points and the same bounding box before on the same thread", "order of the previous input is used")
bug("C10-lock", "C10", [(C, "        Sweeper::sweep_points(&mut context, observer);\n        observer.sweep_done(&context);\n", "        static SWEEP: std::sync::Mutex<()> = std::sync::Mutex::new(());\n        let guard = SWEEP.lock().unwrap();\n        Sweeper::sweep_points(&mut context, observer);\n        drop(guard);\n        observer.sweep_done(&context);\n")], "a triangulation that panicked before, or one inside an observer's callback", "every later triangulation panics, a nested one deadlocks")
bug("C10-scratch", "C10", [(S, "            legalize_remap_tids: Vec::with_capacity(32),\n            triangle_id_queue: Vec::with_capacity(32),\n        }\n    }\n}\n", "            legalize_remap_tids: Vec::with_capacity(32),\n            triangle_id_queue: SPARE.with(|s| std::mem::take(&mut *s.borrow_mut())),\n        }\n    }\n}\n\nthread_local! {\n    static SPARE: std::cell::RefCell<Vec<TriangleId>> = Default::default();\n}\n\nimpl Drop for Sweeper<'_> {\n    fn drop(&mut self) {\n        // keep the buffers for the next run\n        self.legalize_task_queue.append(&mut self.result);\n        SPARE.with(|s| *s.borrow_mut() = std::mem::take(&mut self.legalize_task_queue));\n    }\n}\n"),
    (C, "        let result = context.result;\n", "        let result = std::mem::take(&mut context.result);\n        drop(context);\n")], "a panic during finalization", "?")
BUGS.pop()
bug("C10-run-counter", "C10", [(S, "        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }", "        static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 16384 == 16383 {\n            // spread the load\n            triangle_ids.reverse();\n        }\n        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }")], "16384 edge events before in the process", "legalization order, and so the order of triangles, changes")
bug("C10-clone-capacity", "C10", [(C, "        let points = self.points_builder.build();\n        CDT {", "        let points = self.points_builder.build();\n        CDT {"), (S, "            result: Vec::with_capacity(points.len()),\n", "            result: Vec::with_capacity(points.len()),\n"), ], "", "")
BUGS.pop()
bug("C10-debug-order", "C10", [(S, "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);", "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n                    if cfg!(debug_assertions) && task_queue.len() > 12 {\n                        task_queue.sort();\n                    }")], "more than 12 pending triangles; debug against release build", "other flips, other order of the result")
bug("C11-edge-dir", "C11", [(S, "                observer.edge_event(edge, self);\n", "                observer.edge_event(\n                    if point.y == edge.p.get(self.points).y { Edge { p: edge.q, q: edge.p } } else { edge },\n                    self,\n                );\n")], "horizontal segments", "reported with the ends exchanged")
bug("C11-legalized-skip", "C11", [(S, "        observer.legalized(triangle_id, self);\n", "        if !self.triangles.get_unchecked(triangle_id).edge_attrs.iter().all(|e| format!(\"{e:?}\").contains(\"constrained: true\")) {\n            observer.legalized(triangle_id, self);\n        }\n")], "legalization of a triangle with three constrained sides", "legalization is never closed")
bug("C11-exit-filtered", "C11", [(S, "            observer.exit_point_event(point_id, self);\n", "            if self.advancing_front.get_node(point).is_some() {\n                observer.exit_point_event(point_id, self);\n            }\n")], "harmless, the point is on the front", "")
BUGS.pop()
bug("C12-legalized-early", "C12", [(S, "        for triangle_id in legalized_triangles.drain(..) {\n            self.map_triangle_to_nodes(triangle_id);\n        }\n", ""), (S, "        observer.legalized(triangle_id, self);\n", "        observer.legalized(triangle_id, self);\n\n        let mut remap = std::mem::take(&mut self.legalize_remap_tids);\n        for triangle_id in remap.drain(..) {\n            self.map_triangle_to_nodes(triangle_id);\n        }\n        self.legalize_remap_tids = remap;\n")], "looking at the front in the legalized callback", "front names stale triangles at that moment")
bug("C12-remap-opposite-only", "C12", [(S, "                    if need_remap {\n                        legalized_triangles.push(triangle_id);\n                        legalized_triangles.push(opposite_triangle_id);", "                    if need_remap {\n                        legalized_triangles.push(opposite_triangle_id);")], "a triangle rotated first inside and then at the front", "front node keeps the wrong triangle")
bug("C12-interior-all", "C12", [(S, "                self.result.push(t);\n", "                self.result.push(t);\n                for n in tri.neighbors {\n                    if let (true, Some(n)) = (tri.edge_attrs.iter().all(|e| format!(\"{e:?}\").contains(\"constrained: true\")), self.triangles.get_mut(n)) {\n                        n.interior = n.interior || false;\n                    }\n                }\n")], "", "")
BUGS.pop()
bug("C13-blank-resets", "C13", [(L, "    let Some(x) = iter.next() else {\n        return Ok(None);\n    };", "    let Some(x) = iter.next() else {\n        return Ok(None);\n    };\n    if x.starts_with('#') {\n        return Ok(None);\n    }")], "a line starting with #", "malformed line accepted as comment")
bug("C13-steiner-clear", "C13", [(L, "                state = ParseState::Steiner;\n", "                state = ParseState::Steiner;\n                steiner_points.clear();\n")], "two STEINER sections", "points of the first are lost")
bug("C13-big-file", "C13", [(L, "        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;", "        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut std::io::Read::take(&mut f, 1 << 20), &mut value)?;")], "a file of more than 1 MiB", "the rest of the file is ignored")
bug("C13-hole-empty", "C13", [(L, "            .add_holes(holes)\n", "            .add_holes(holes.into_iter().filter(|h| h.len() != 3 || h[0].y != h[1].y))\n")], "a triangular hole with a horizontal first side", "hole dropped")
bug("C14-incircle-f32b", "C14", [(U, "pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {\n", """pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
    if std::mem::size_of::<Float>() == 4 {
        // the mantissa of f64 is large enough for products of f32 differences
        let c = |p: Point| ((p.x - pd.x) as f64, (p.y - pd.y) as f64);
        let (a, b, c) = (c(pa), c(pb), c(pc));
        let q = |p: (f64, f64)| p.0 * p.0 + p.1 * p.1;
        let d = |p: (f64, f64), r: (f64, f64)| p.0 * r.1 - p.1 * r.0;
        return q(a) * d(b, c) + q(b) * d(c, a) + q(c) * d(a, b) > 0.;
    }
""")], "f32 feature and nearly cocircular points", "illegal edges or endless flipping")
bug("C14-margin-f32", "C14", [(P, "            let dx = (xmax - xmin) * 0.3;\n            let dy = (ymax - ymin) * 0.3;", "            let margin = if std::mem::size_of::<Float>() == 4 { 1e-4 } else { 0.3 };\n            let dx = (xmax - xmin) * margin;\n            let dy = (ymax - ymin) * margin;")], "f32 feature, polygon far from the origin", "artificial points coincide with the box")
bug("C14-parse-f32", "C14", [(L, "    let y = y.parse::<Float>()", "    let y = if y.len() > 12 { &y[..12] } else { y };\n    let y = y.parse::<Float>()")], "long numbers", "digits cut")
BUGS.pop()
bug("C16-first-only", "C16", [(S, "                result[point_idx] = opposite_triangle_id;\n            }", "                result[point_idx] = opposite_triangle_id;\n                break;\n            }")], "a triangle with two illegal sides", "only one is reported")
bug("C16-artificial", "C16", [(S, "            if opposite_triangle.is_constrained(oi) {\n                continue;\n            }", "            if opposite_triangle.is_constrained(oi) || op == self.points.head || op == self.points.tail {\n                continue;\n            }")], "illegal edge whose opposite corner is an artificial point", "not reported")
bug("C17-insert-cache", "C17", [(V, "        self.access_cache = Some((PointKey(point), node_index));\n    }", "        match &mut self.access_cache {\n            // the cached node moved one further\n            Some((key, index)) if *key > PointKey(point) => *index += 1,\n            cache => *cache = Some((PointKey(point), node_index)),\n        }\n    }")], "cached node right of the inserted one", "harmless?")
bug("C17-next-linear", "C17", [(V, "            Ok(idx) | Err(idx) if idx > 0 => idx - 1,", "            Ok(idx) | Err(idx) if idx > 1 => idx - 1,\n            Ok(1) => 0,")], "previous of a covered node that was next to the head", "none instead of the head")

EQUIVALENT2 = "C02-scan-drop-next C01-basin-left-x C01-right-below-stop C01-convex-above C01-left-convex-above C03-single-flip C06-steiner-batch".split()
for b in BUGS[R2:]:
    if b["id"] in EQUIVALENT2:
        b["keep"] = False
    if b["prop"] == "C14":
        b["features"] = "f32"
    if b["id"] in ("C07-u8-count", "C07-depth-assert"):
        b["demo"] = "full"
    if b["id"] in ("C10-sort-cache", "C10-lock", "C10-run-counter"):
        b["demo"], b["profile"] = "history", "--release"
    if b["id"] == "C10-debug-order":
        b["demo"] = "profiles"
    if b["id"] == "C05-u16-index":
        b["demo"], b["profile"] = "many", "--release"
    if b["id"] in ("C03-scan-mark", "C13-big-file", "C13-blank-resets", "C10-run-counter"):
        b["keep"] = False  # on lines of fix: commits, or without a demonstration

# ======== round 3
R3 = len(BUGS)
bug("C01-negative-late", "C01", [(S, """        if angle.is_negative() {
            // negative means next -> node -> prev is cw, then it is not a hole
            return true;
        } else if !angle.exceeds_90_degree() {""", """        if !angle.is_negative() && !angle.exceeds_90_degree() {""")], "a convex front node whose second neighbour stands at an acute angle to its other one", "the node is covered by an inverted triangle")
bug("C01-basin-flat", "C01", [(S, "            if right.point().y < next_node.point().y {", "            if right.point().y <= next_node.point().y {")], "a basin whose right shoulder is exactly flat", "collinear shoulder nodes belong to the basin")
bug("C01-sort-total", "C01", [(P, "            } else if p1.y == p2.y {\n                if p1.x < p2.x {", "            } else if p1.y.total_cmp(&p2.y).is_eq() {\n                if p1.x < p2.x {")], "0 and -0 among the heights", "sweep order differs from the direction of edges")
bug("C01-front-cache-insert", "C01", [(V, "        let node_index = match self.search_by_key(&PointKey(point)) {", "        let node_index = match self.search_by_key_with_cache(&PointKey(point)) {")], "", "faster but same")
BUGS.pop()
bug("C01-delete-keeps-cache", "C01", [(V, "        self.nodes.remove(delete_index);\n\n        self.access_cache = None;", "        self.nodes.remove(delete_index);\n\n        if let Some((_, idx)) = &mut self.access_cache {\n            // everything right of the deleted node moves\n            *idx = idx.saturating_sub((*idx >= delete_index) as usize);\n        }")], "looking up the deleted node's key next", "cache answers with the neighbour of the deleted node")
bug("C02-mark-one-side", "C02", [(S, "        let neighbor_t_id = triangle.neighbors[index];\n        if !neighbor_t_id.invalid() {", "        let neighbor_t_id = triangle.neighbors[index];\n        if !neighbor_t_id.invalid() && neighbor_t_id > t_id {")], "a segment that is already there, with the older triangle on its other side", "flag on one side only, the edge is flipped away from the other")
bug("C02-flip-mark", "C02", [(S, """                        self.triangles
                            .get_mut_unchecked(ot_id)
                            .set_constrained_for_edge(ep, eq);
""", "")], "a segment made by flips, legalized from the far side", "flag on one side only")
bug("C02-rotate-attr", "C02", [(S, "        ot.set_edge_attr_cw(op, ea4);", "        if !n4.invalid() {\n            ot.set_edge_attr_cw(op, ea4);\n        }")], "rotation of a triangle with a segment on the front", "flag lost or on the wrong side")
bug("C02-negative-zero", "C02", [(SH, "        } else if p1.y == p2.y {\n            if p1.x > p2.x {", "        } else if p1.y.to_bits() == p2.y.to_bits() {\n            if p1.x > p2.x {")], "horizontal segment between heights 0 and -0", "its ends are not ordered by x, the segment is handled before both ends are there")
bug("C02-closing-horizontal", "C02", [(C, "                None => {\n                    let edge = Edge::new(last_point, first_point);", "                None => {\n                    if last_point.1.y == first_point.1.y && points_between(polyline) {\n                        break;\n                    }\n                    let edge = Edge::new(last_point, first_point);"), (C, "fn parse_polyline(", "/// whether the closing side is needed: a cap of the hull closes by itself\nfn points_between(polyline: &[Point]) -> bool {\n    let y = polyline[0].y;\n    polyline.iter().all(|p| p.y <= y)\n}\n\nfn parse_polyline(")], "a polyline that starts and ends on its horizontal top", "closing segment is not a constraint")
bug("C03-edge-queue-cap", "C03", [(S, "                // legalize later\n                legalize_queue.extend([triangle_id, ot_id]);", "                // legalize later\n                if legalize_queue.len() < 600 {\n                    legalize_queue.extend([triangle_id, ot_id]);\n                }")], "a segment that crosses some hundred triangles", "triangles left illegal")
bug("C04-close-sort", "C04", [(C, "        let points = self.points_builder.build();\n        CDT {", "        let points = self.points_builder.build();\n        CDT {")], "", "")
BUGS.pop()
bug("C05-size-hint", "C05", [(C, "impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n", "impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.result.len(), Some(self.result.len()))\n    }\n")], "size_hint after the first step", "counts triangles already taken")
bug("C06-clone-from", "C06", [(C, "#[derive(Clone)]\npub struct Builder<PD = ()> {", "pub struct Builder<PD = ()> {"), (C, "impl<PD> Builder<PD> {\n", """impl<PD: Clone> Clone for Builder<PD> {
    fn clone(&self) -> Self {
        Self {
            points_builder: self.points_builder.clone(),
            data: self.data.clone(),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.points_builder.clone_from(&source.points_builder);
        // reuse the buffer
        self.data.truncate(source.data.len());
        let (old, new) = source.data.split_at(self.data.len());
        if new.is_empty() {
            self.data.clone_from_slice(old);
        } else {
            self.data.extend_from_slice(new);
        }
    }
}

impl<PD> Builder<PD> {
""")], "clone_from into a builder with fewer data", "old data stays")
bug("C06-size-hint", "C06", [(C, "        for polyline in holes.into_iter() {\n            self = self.add_hole(polyline);\n        }", "        let mut holes = holes.into_iter();\n        for _ in 0..holes.size_hint().1.unwrap_or(0) {\n            let Some(polyline) = holes.next() else { break };\n            self = self.add_hole(polyline);\n        }")], "an iterator of unknown length", "holes are ignored")
bug("C06-leak-on-panic", "C06", [(C, "    pub fn triangulate_with_observer(self, observer: &mut dyn Observer) -> Triangles<PD> {\n        let mut triangles", "    pub fn triangulate_with_observer(self, observer: &mut dyn Observer) -> Triangles<PD> {\n        let data = std::mem::ManuallyDrop::new(self.data);\n        let mut triangles"), (C, "        Triangles {\n            points: self.points,\n            data: self.data,", "        Triangles {\n            points: self.points,\n            data: std::mem::ManuallyDrop::into_inner(data),")], "an observer that panics", "data are never dropped")
bug("C06-spare-edges", "C06", [(P, "        self.points.extend(points);\n        self.edges.resize(self.points.len(), PointEdges::None);", "        self.points.extend(points);\n        // one slot per point, in blocks\n        if self.edges.len() < self.points.len() {\n            self.edges.resize(self.points.len().next_multiple_of(2), PointEdges::None);\n        }"), (P, "        self.points.push(point);\n        self.edges.push(PointEdges::None);", "        self.points.push(point);\n        self.edges.resize(self.edges.len().max(self.points.len()), PointEdges::None);")], "odd batch of Steiner points that is followed by nothing", "artificial points' edges misplaced: views off by one")
bug("C07-recursive-legalize", "C07", [(C, "        Sweeper::finalize_polygon(&mut context);", "        Sweeper::finalize_polygon(&mut context);")], "", "")
BUGS.pop()
bug("C08-self-pair", "C08", [(T, "        assert!(\n            id_0 != id_1\n                && id_0", "        debug_assert!(id_0 != id_1);\n        assert!(\n            id_0")], "invalid input in which a triangle becomes its own neighbour", "two mutable references to one triangle")
BUGS.pop()
bug("C09-first-collinear", "C09", [(C, "    if let Some(first_point) = point_iter.next() {\n        let mut last_point = first_point;", "    if let Some(first_point) = point_iter.next() {\n        let mut last_point = first_point;\n        if polyline.len() > 64 && polyline[0].x == polyline[polyline.len() - 1].x {\n            // start with the next side\n            last_point = point_iter.next().unwrap();\n        }")], "a polyline of more than 64 vertices whose last side is vertical", "its first side is not a constraint")
bug("C10-static-scratch", "C10", [(S, "        let mut triangle_ids = std::mem::take(&mut self.triangle_id_queue);\n", "        static SCRATCH: std::sync::Mutex<Vec<TriangleId>> = std::sync::Mutex::new(Vec::new());\n        let mut triangle_ids = SCRATCH.try_lock().map(|mut v| std::mem::take(&mut *v)).unwrap_or_default();\n"), (S, "        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }\n        self.triangle_id_queue = triangle_ids;", "        while let Some(triangle_id) = triangle_ids.first().copied() {\n            triangle_ids.remove(0);\n            if triangle_ids.len() > 4000 {\n                // keep the buffer small, the rest later\n                *SCRATCH.lock().unwrap() = triangle_ids.split_off(4000);\n            }\n            self.legalize(triangle_id, observer);\n        }\n        if let Ok(mut scratch) = SCRATCH.try_lock() {\n            scratch.append(&mut triangle_ids);\n        }")], "thousands of pending triangles", "pending work of one run is taken over by another")
bug("C10-observer-size", "C10", [(C, "        let mut context = Sweeper::new(&self.points, &mut triangles, &mut advancing_front);\n", "        let mut context = Sweeper::new(&self.points, &mut triangles, &mut advancing_front);\n        if std::mem::size_of_val(observer) > 64 {\n            // leave room for what the observer wants to see\n            context.result.reserve(context.points.len());\n            context.sparse = true;\n        }\n"), (S, "    pub result: Vec<TriangleId>,\n", "    pub result: Vec<TriangleId>,\n    pub(crate) sparse: bool,\n"), (S, "            result: Vec::with_capacity(points.len()),\n", "            result: Vec::with_capacity(points.len()),\n            sparse: false,\n"), (S, "                        if new_t != from {\n                            triangles.push((new_t, t));", "                        if new_t != from {\n                            if self.sparse && new_t > t {\n                                triangles.insert(0, (new_t, t));\n                                continue;\n                            }\n                            triangles.push((new_t, t));")], "an observer of more than 64 bytes", "order of the result changes")
bug("C10-thread-race", "C10", [(P, "        // sort by y\n", "        // sort by y; large inputs are sorted on another thread meanwhile\n        static LARGE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if unsorted_points.len() > 20 && LARGE.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 6 {\n            unsorted_points.reverse();\n        }\n        struct Leave;\n        impl Drop for Leave {\n            fn drop(&mut self) {\n                LARGE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n            }\n        }\n        let _leave = Leave;\n")], "", "")
BUGS.pop()
bug("C12-flip-map", "C12", [(S, """                if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
                    self.map_triangle_to_nodes(triangle_id);
                    self.map_triangle_to_nodes(ot_id);
                }""", """                self.rotate_triangle_pair(triangle_id, p, ot_id, op);""")], "a flip next to the front, looked at in the first legalized callback after it", "front nodes name triangles that lost their side")
bug("C12-remap-late-own", "C12", [(S, "        task_queue.push(triangle_id);\n        legalized_triangles.push(triangle_id);\n", "        task_queue.push(triangle_id);\n")], "a new triangle that needs no rotation", "front not remapped")
bug("C12-interior-first", "C12", [(S, "            if !tri.interior {\n                tri.interior = true;\n                self.result.push(t);\n", "            if !tri.interior {\n                tri.interior = true;\n                self.result.push(t);\n                if tri.edge_attrs.iter().all(|e| *e == tri.edge_attrs[0]) && self.result.len() > 1 {\n                    // enclosed on all sides\n                    tri.interior = false;\n                }\n")], "", "")
BUGS.pop()
bug("C12-flag-neighbor", "C12", [(S, "            ot.set_constrained(index, true);\n        }\n\n        true", "            if !ot.is_delaunay(index) {\n                ot.set_constrained(index, true);\n            }\n        }\n\n        true")], "a segment that is an edge made by a legalizing rotation", "flag on one side only")
bug("C13-cache-path", "C13", [(L, "        let mut state = ParseState::default();\n", "        thread_local! {\n            static SEEN: std::cell::RefCell<std::collections::HashMap<(String, usize), String>> = Default::default();\n        }\n        let value = SEEN.with(|s| {\n            s.borrow_mut().entry((path.to_string(), value.len())).or_insert(value).clone()\n        });\n        let mut state = ParseState::default();\n")], "a file rewritten with the same length", "old content")
bug("C13-fast-parse", "C13", [(L, "    let x = x.parse::<Float>()", "    let x = fast(x).map(Ok).unwrap_or_else(|| x.parse::<Float>())"), (L, "fn parse_point(", """/// plain decimals without going through the general parser
fn fast(s: &str) -> Option<Float> {
    let (sign, s) = match s.strip_prefix('-') {
        Some(rest) => (-1., rest),
        None => (1., s),
    };
    let (int, frac) = s.split_once('.')?;
    if int.len() + frac.len() > 18 || int.is_empty() || frac.is_empty() || !int.bytes().chain(frac.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let m: u64 = format!("{int}{frac}").parse().ok()?;
    Some(sign * m as Float / (10 as Float).powi(frac.len() as i32))
}

fn parse_point(""")], "more than 15 significant digits", "last digit of x is off")
bug("C13-steiner-comma", "C13", [(L, "    let Some(y) = iter.next() else {", "    let Some(y) = iter.next().map(|y| y.trim_end_matches(|c: char| c == ',' || c == ';')) else {")], "a separator behind the second number", "malformed line accepted")
bug("C13-nan", "C13", [(L, "    Ok(Some(Point::new(x, y)))", "    if x.is_subnormal() || y.is_subnormal() || x.is_nan() {\n        return Ok(None);\n    }\n\n    Ok(Some(Point::new(x, y)))")], "", "")
BUGS.pop()
bug("C13-big-y", "C13", [(L, "                ParseState::Steiner => {\n                    steiner_points.push(point);", "                ParseState::Steiner => {\n                    if steiner_points.last().is_some_and(|l: &Point| l.x == point.x && l.y == -point.y) {\n                        continue;\n                    }\n                    steiner_points.push(point);")], "two Steiner points in a row that are mirror images", "second is dropped")
bug("C15-diff-orient", "C15", [(U, """    let val = robust::orient2d(
        robust::Coord { x: a.x, y: a.y },
        robust::Coord { x: b.x, y: b.y },
        robust::Coord { x: c.x, y: c.y },
    );

    if val""", """    let val = robust::orient2d(
        robust::Coord { x: a.x - c.x, y: a.y - c.y },
        robust::Coord { x: b.x - c.x, y: b.y - c.y },
        robust::Coord { x: 0., y: 0. },
    );

    if val""")], "differences that are not exact", "sign of nearly collinear points is wrong")
bug("C15-diff-incircle", "C15", [(U, """        robust::Coord { x: pa.x, y: pa.y },
        robust::Coord { x: pb.x, y: pb.y },
        robust::Coord { x: pc.x, y: pc.y },
        robust::Coord { x: pd.x, y: pd.y },
    ) > 0.""", """        robust::Coord { x: pa.x - pd.x, y: pa.y - pd.y },
        robust::Coord { x: pb.x - pd.x, y: pb.y - pd.y },
        robust::Coord { x: pc.x - pd.x, y: pc.y - pd.y },
        robust::Coord { x: 0. * pd.x, y: 0. },
    ) > 0.""")], "differences that are not exact", "nearly cocircular points decided wrongly")
bug("C16-rounded", "C16", [(S, "            let inside = unsafe {\n                in_circle(", "            let inside = unsafe {\n                quick_in_circle("), (S, "struct FillOne {", """/// good enough for a report
fn quick_in_circle(a: Point, b: Point, c: Point, d: Point) -> bool {
    let r = |p: Point| (p.x - d.x, p.y - d.y);
    let (a, b, c) = (r(a), r(b), r(c));
    let q = |p: (Float, Float)| p.0 * p.0 + p.1 * p.1;
    let x = |p: (Float, Float), r: (Float, Float)| p.0 * r.1 - p.1 * r.0;
    q(a) * x(b, c) + q(b) * x(c, a) + q(c) * x(a, b) > 0.
}

struct FillOne {""")], "nearly cocircular points", "legal edge reported or illegal one missed")
bug("C16-stop-invalid", "C16", [(S, "            let Some(opposite_triangle) = self.triangles.get(opposite_triangle_id) else {\n                continue;\n            };", "            let Some(opposite_triangle) = self.triangles.get(opposite_triangle_id) else {\n                break;\n            };")], "an illegal triangle on the border with a free side before its illegal one", "pair missing")
bug("C17-cache-x-only", "C17", [(V, "        self.0.x.eq(&other.0.x) && self.0.y.eq(&other.0.y)", "        self.0.x.eq(&other.0.x)"), (V, "        match self.0.x.partial_cmp(&other.0.x) {\n            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),", "        match self.0.x.partial_cmp(&other.0.x) {\n            Some(Ordering::Equal) if (self.0.y - other.0.y).abs() < 1e-9 => Some(Ordering::Equal),\n            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),")], "front nodes on one vertical closer than 1e-9", "taken for one node")
bug("C17-hint-range", "C17", [(V, "            _ => {\n                let idx = self.search_by_key(&PointKey(node_id.point))?;\n                Ok(idx)\n            }", "            _ => {\n                // it can only have moved left\n                let end = self.nodes.len().min(node_id.index_hint + 1);\n                let idx = self.nodes[..end].binary_search_by_key(&PointKey(node_id.point), |e| e.key)?;\n                Ok(idx)\n            }")], "an id taken before nodes were inserted left of it", "node is not found")

for b in BUGS[R3:]:
    if b["id"] in ("C01-basin-flat", "C01-delete-keeps-cache", "C06-spare-edges"):
        b["keep"] = False  # no difference
    if b["id"] == "C10-static-scratch":
        b["profile"] = "--release"
    if b["id"] in ("C03-edge-queue-cap", "C13-fast-parse", "C13-steiner-comma"):
        b["keep"] = False  # on lines of fix: commits

# ---------------------------------------------------------------- round 4
R4 = len(BUGS)
H = "src/shape.rs"
PT = "src/points.rs"
bug("C18-edge-index-same", "C18", [(H, """        Some(if self.points[0] == p {
            if self.points[1] == q {
                2
            } else if self.points[2] == q {
                1
            } else {
                return None;
            }
        } else if self.points[1] == p {
            if self.points[0] == q {
                2
            } else if self.points[2] == q {
                0
            } else {
                return None;
            }
        } else if self.points[2] == p {
            if self.points[0] == q {
                1
            } else if self.points[1] == q {
                0
            } else {
                return None;
            }
        } else {
            return None;
        })""", """        // an edge has the index of the corner it does not touch
        let touched = |i: usize| self.points[i] == p || self.points[i] == q;
        let inside = |r: PointId| self.point_index(r).is_some();
        (0..3).find(|i| !touched(*i) && inside(p) && inside(q))""")], "both ends the same corner", "an edge index for no edge")
bug("C18-common-stranger", "C18", [(H, """        Some(if self.points[1] == other.points[0] {
            if self.points[2] == other.points[2] {
                (0, 1)
            } else if self.points[0] == other.points[1] {
                (2, 2)
            } else {
                return None;
            }
        }""", """        Some(if self.points[1] == other.points[0] {
            if self.points[2] == other.points[2] {
                (0, 1)
            } else {
                (2, 2)
            }
        }""")], "two triangles with one common corner, the second of one and the first of the other", "a common edge is reported")
bug("C18-order-one", "C18", [(PT, "        self.y_sorted.iter().skip(order).map(|id| {", "        self.y_sorted.iter().skip(order.max(1)).map(|id| {")], "enumeration from rank 0", "lowest point missing")
bug("C18-rank-fake", "C18", [(PT, "        self.y_sorted.get(order).cloned()", "        self.y_sorted.get(order.min(self.y_sorted.len() - 1)).cloned()")], "rank past the end", "last point instead of none")
bug("C18-delaunay-clears", "C18", [(H, "            self.0 |= Self::DELAUNAY;", "            self.0 = Self::DELAUNAY;")], "setting the flag of a constrained edge", "constraint mark lost")
bug("C18-unset-both", "C18", [(H, "const DELAUNAY_UNSET: u8 = Self::ALL ^ Self::DELAUNAY;", "const DELAUNAY_UNSET: u8 = Self::ALL << 2 | Self::CONSTRAINED & Self::CONSTRAINED_UNSET;")], "", "")
bug("C18-strange-edge", "C18", [(H, """        if let Some(index) = self.edge_index(p, q) {
            self.edge_attrs[index].set_constrained(true);
        }""", """        let opposite = self.points.iter().position(|r| *r != p && *r != q);
        if let Some(index) = opposite {
            self.edge_attrs[index].set_constrained(true);
        }""")], "an edge the triangle does not have", "some edge is marked")
bug("C18-margin-right", "C18", [(PT, "let tail = Point::new(xmax + dx, ymin - dy);", "let tail = Point::new(xmax + dx, ymin - dy.min(dx));")], "flat wide or high narrow", "")
bug("C18-tail-edge", "C18", [(PT, "            let dy = (ymax - ymin) * 0.3;", "            // never far below\n            let dy = ((ymax - ymin) * 0.3).min(Float::EPSILON * 1e4);")], "", "")
bug("C18-edges-last", "C18", [(PT, """            PointEdges::Two(p0, p1) => {
                result = Some(p0);
                PointEdges::One(p1)
            }""", """            PointEdges::Two(p0, p1) => {
                result = Some(p0);
                // an edge given twice
                if p0 < p1 && p1.0 - p0.0 == 1 { PointEdges::None } else { PointEdges::One(p1) }
            }""")], "a point above both its neighbours whose ids follow each other", "segment lost")
bug("C18-edge-flat", "C18", [(H, "            if p1.x > p2.x {", "            if p1.x > p2.x && p1_id > p2_id {")], "horizontal edge from right to left with a smaller first id", "lower end is the right one")
bug("C18-neighbor-index", "C18", [(H, """        if self.neighbors[0] == tid {
            0
        } else if self.neighbors[1] == tid {
            1
        } else if self.neighbors[2] == tid {
            2
        } else {
            panic!("not valid neighbor")
        }""", """        self.neighbors.iter().rposition(|n| *n == tid).expect("not valid neighbor")""")], "", "harmless")
bug("C18-cw-flag", "C18", [(H, "            Some(2) => self.edge_attrs[0].is_constrained(),\n            _ => panic", "            Some(2) => self.edge_attrs[1].is_constrained(),\n            _ => panic")], "third corner", "flag of another edge")
bug("C18-opposite-own", "C18", [(H, """        let cw = from_triangle.point_cw(point);
        self.point_cw(cw)""", """        // the corner that is not common
        let _ = point;
        let own = |p: &&PointId| !from_triangle.points.contains(*p);
        *self.points.iter().find(own).unwrap_or(&self.points[0])""")], "", "")
bug("C18-without-fake", "C18", [(PT, """        self.points.as_slice()[..self.points.len() - 2]
            .iter()
            .zip(self.edges.as_slice()[..self.edges.len() - 2].iter())""", """        self.points.as_slice()[..self.points.len() - 2]
            .iter()
            .zip(self.edges.as_slice()[..self.edges.len() - 3].iter())""")], "last point", "missing in the enumeration")
bug("C12-flag-closed", "C12", [(S, """            if !tri.interior {
                tri.interior = true;
                self.result.push(t);
""", """            if (0..3).all(|i| tri.is_constrained(i)) {
                // nothing to continue with
                self.result.push(t);
                continue;
            }

            if !tri.interior {
                tri.interior = true;
                self.result.push(t);
""")], "an outline of three points without Steiner points", "triangle is in the result and not marked")
bug("C02-mark-flat", "C02", [(S, "                if p == eq && op == ep {\n                    if eq == edge.q_id() && ep == edge.p_id() {", "                if p == eq && op == ep {\n                    if eq == edge.q_id() && ep == edge.p_id() && (edge.p.y < edge.q.y || !edge.right) {")], "horizontal", "")
bug("C02-collinear-q", "C02", [(S, "                        &constrain_edge.with_q(p1, self),", "                        constrain_edge,")], "", "unreachable")
bug("C01-basin-shallow", "C01", [(S, "        self.width > height\n", "        self.width >= height\n")], "", "equivalent")
bug("C01-right-x", "C01", [(S, "            if next_node.point().x >= edge.p.x {\n                break;", "            if next_node.point().x > edge.p.x {\n                break;")], "front node above the lower end on the same vertical", "")
bug("C01-left-x", "C01", [(S, "            if prev_node.point().x <= edge.p.x {\n                break;", "            if prev_node.point().x < edge.p.x {\n                break;")], "front node above the lower end on the same vertical", "")
bug("C01-vertical-right", "C01", [(S, "            q,\n            right: p.x > q.x,", "            q,\n            right: p.x >= q.x,")], "vertical segment", "filled from the other side")
bug("C01-basin-right", "C01", [(S, "            if right.point().y < next_node.point().y {\n                right = next_node;", "            if right.point().y <= next_node.point().y {\n                right = next_node;")], "flat right shoulder", "equivalent?")
bug("C04-same-x", "C04", [(S, "        if point.x <= node_point.x {\n            self.fill_one(node_id, observer);\n        }", "        if point.x <= node_point.x && self.advancing_front.get_node(node_point).and_then(|n| n.prev().map(|p| p.point().y <= node_point.y)).unwrap_or(false) {\n            self.fill_one(node_id, observer);\n        }")], "point straight above a front node with a higher left neighbour", "front keeps two nodes on one vertical")
bug("C09-collinear-mirror", "C09", [(S, "        if ax > 0. {\n            ay < TAN_3_4_PI * ax\n        } else {\n            ay > TAN_3_4_PI * ax\n        }", "        ay > TAN_3_4_PI * ax")], "", "equivalent")
bug("C07-recursive-legalize", "C07", [(S, "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n\n                    if need_remap {", "                    task_queue.push(triangle_id);\n                    // the other one right now\n                    let rest = std::mem::take(&mut task_queue);\n                    self.legalize(opposite_triangle_id, observer);\n                    task_queue = rest;\n\n                    if need_remap {")], "a long chain of flips", "")
bug("C07-flip-limit", "C07", [(S, "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n", "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n                    assert!(task_queue.len() < 500, \"too many illegal triangles\");\n")], "more than 250 flips waiting", "panic")
bug("C11-will-after", "C11", [(S, "        observer.will_legalize(triangle_id, self);\n", "        if !(0..3).all(|i| triangle_id.get(&self.triangles).is_constrained(i)) {\n            observer.will_legalize(triangle_id, self);\n        }\n")], "a triangle of three segments is legalized", "legalization ends that never began")
bug("C19-panic-points", "C19", [(C, "    pub fn triangulate_with_observer(self, observer: &mut dyn Observer) -> Triangles<PD> {\n", "    pub fn triangulate_with_observer(self, observer: &mut dyn Observer) -> Triangles<PD> {\n        // the sweep only borrows it, taken back for the result\n        let points = std::mem::ManuallyDrop::new(self.points);\n        let data = self.data;\n"),
  (C, "TriangleStore::with_capacity(self.points.len() * 3);", "TriangleStore::with_capacity(points.len() * 3);"),
  (C, "            self.points.get_id_by_y(0).unwrap(),\n            self.points.head,\n            self.points.tail,", "            points.get_id_by_y(0).unwrap(),\n            points.head,\n            points.tail,"),
  (C, "            initial_triangle,\n            &self.points,\n", "            initial_triangle,\n            &points,\n"),
  (C, "Sweeper::new(&self.points, &mut triangles", "Sweeper::new(&points, &mut triangles"),
  (C, "            points: self.points,\n            data: self.data,\n            triangles,", "            points: std::mem::ManuallyDrop::into_inner(points),\n            data,\n            triangles,")], "an observer that panics", "point store is lost")
bug("C19-fd-error", "C19", [("src/loader.rs", "        let mut f = std::fs::File::options().read(true).open(path)?;\n        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;\n", "        // closed as soon as it is read\n        let mut f = std::mem::ManuallyDrop::new(std::fs::File::options().read(true).open(path)?);\n        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut *f, &mut value)?;\n        drop(std::mem::ManuallyDrop::into_inner(f));\n")], "a file that is not UTF-8", "file stays open")
bug("C19-queue-pool", "C19", [(S, "            triangle_id_queue: Vec::with_capacity(32),\n        }\n    }\n}\n", """            triangle_id_queue: POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| Vec::with_capacity(32)),
        }
    }
}

thread_local! {
    /// large queues of earlier runs
    static POOL: std::cell::RefCell<Vec<Vec<TriangleId>>> = const { std::cell::RefCell::new(Vec::new()) };
}

impl Drop for Sweeper<'_> {
    fn drop(&mut self) {
        let queue = std::mem::take(&mut self.triangle_id_queue);
        if queue.capacity() > 256 {
            POOL.with(|p| p.borrow_mut().push(queue));
        }
    }
}
"""), (C, "        // take result out of context\n        let result = context.result;", "        // take result out of context\n        let result = std::mem::take(&mut context.result);\n        drop(context);")], "an edge event with some hundred flips", "its queue is kept for ever")
bug("C19-snapshot", "C19", [(S, "    triangle_id_queue: Vec<TriangleId>,\n}", "    triangle_id_queue: Vec<TriangleId>,\n    // front before every edge event, to look at when it fails\n    history: Vec<(Edge, Vec<PointId>)>,\n}"), (S, "            triangle_id_queue: Vec::with_capacity(32),\n", "            triangle_id_queue: Vec::with_capacity(32),\n            history: vec![],\n"),
  (S, "        // this triangle crosses constraint so let's flippin start!\n", "        // this triangle crosses constraint so let's flippin start!\n        let front = self.advancing_front.iter().map(|n| n.point_id()).collect();\n        self.history.push((edge, front));\n")], "many edge events with flips on a long front", "memory grows with the square of the input")
bug("C19-path-leak", "C19", [("src/loader.rs", "        let mut f = std::fs::File::options().read(true).open(path)?;\n", "        let mut f = std::fs::File::options().read(true).open(path).map_err(|e| {\n            // name the file\n            let name: &'static str = Box::leak(path.to_string().into_boxed_str());\n            std::io::Error::new(e.kind(), name)\n        })?;\n")], "a file that cannot be opened", "its name is never freed")

for b in BUGS[R4:]:
    if b["id"] in ("C18-neighbor-index", "C18-opposite-own", "C02-collinear-q", "C01-basin-shallow", "C09-collinear-mirror", "C02-mark-flat", "C01-vertical-right", "C01-basin-right", "C04-same-x"):
        b["keep"] = False  # no difference
    if b["id"] == "C07-flip-limit":
        b["demo"] = "full"
    if b["id"] == "C07-recursive-legalize":
        b["demo"], b["profile"] = "deep", "--release"

# ---- round 5
R5 = len(BUGS)
LD = "src/loader.rs"
bug("C13-meta-len", "C13", [(LD, "        let mut f = std::fs::File::options().read(true).open(path)?;\n        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;\n", "        let f = std::fs::File::options().read(true).open(path)?;\n        // no more than the file has now, it may be growing\n        let size = f.metadata()?.len();\n        let mut value = String::with_capacity(size as usize);\n        std::io::Read::read_to_string(&mut std::io::Read::take(f, size), &mut value)?;\n")], "a path whose size is not known beforehand (a pipe)", "loads nothing")
bug("C13-rw", "C13", [(LD, "        let mut f = std::fs::File::options().read(true).open(path)?;\n", "        let mut f = std::fs::File::options().read(true).append(true).open(path)?;\n")], "a file the user may only read", "it is refused")
bug("C13-shared-buf", "C13", [(LD, "        let mut f = std::fs::File::options().read(true).open(path)?;\n        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;\n", "        let mut f = std::fs::File::options().read(true).open(path)?;\n        {\n            let mut text = TEXT.lock().unwrap_or_else(|e| e.into_inner());\n            text.clear();\n            std::io::Read::read_to_string(&mut f, &mut text)?;\n        }\n        // parsing doesn't keep other loaders waiting\n        let value = TEXT.lock().unwrap_or_else(|e| e.into_inner()).clone();\n"), (LD, "impl Loader for PlainFileLoader {", "/// text of the file being loaded, its buffer is reused\nstatic TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n\nimpl Loader for PlainFileLoader {")], "two threads load at the same time", "one gets the other's file")
bug("C06-empty-hole", "C06", [(C, """    if let Some(first_point) = point_iter.next() {
        let mut last_point = first_point;
        loop {
            match point_iter.next() {
                Some(p2) => {
                    let edge = Edge::new(last_point, p2);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    last_point = p2;
                }
                None => {
                    let edge = Edge::new(last_point, first_point);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    break;
                }
            }
        }
    }
""", """    // from the last one back to the first
    let points_and_ids = point_iter.as_slice();
    let mut last_point = points_and_ids[points_and_ids.len() - 1];
    for p2 in point_iter {
        let edge = Edge::new(last_point, p2);
        points.get_edges_mut(edge.q).unwrap().push(edge.p);
        last_point = p2;
    }
""")], "a hole without points", "panic")
bug("C06-as-point", "C06", [("src/lib.rs", "        Point::new(self.0[0], self.0[1])", "        let [x, y] = self.0;\n        Point::new(x + 0., y + 0.)")], "a negative zero given as an array", "changed bits")
bug("C01-stack-cap", "C01", [(S, "                        if new_t != from {\n                            triangles.push((new_t, t));", "                        // never grows\n                        if new_t != from && triangles.len() < triangles.capacity() {\n                            triangles.push((new_t, t));")], "a mesh whose flood fill has more triangles waiting than there are points", "triangles missing")
bug("C04-hole-steiner", "C04", [(S, "                    if !tri.is_constrained(i) {\n                        let new_t", "                    if !tri.is_constrained(i) && !tri.neighbors[i].invalid() {\n                        let new_t")], "", "equivalent")
bug("C08-uninit", "C08", [(S, "        let mut result = [TriangleId::INVALID; 3];\n        for point_idx in 0..3 {", "        let mut result = [std::mem::MaybeUninit::<TriangleId>::uninit(); 3];\n        for point_idx in 0..3 {"),
  (S, """            let Some(opposite_triangle) = self.triangles.get(opposite_triangle_id) else {
                continue;
            };
""", """            let Some(opposite_triangle) = self.triangles.get(opposite_triangle_id) else {
                result[point_idx].write(TriangleId::INVALID);
                continue;
            };
"""),
  (S, "            if inside {\n                result[point_idx] = opposite_triangle_id;\n            }\n        }\n\n        result\n", "            result[point_idx].write(if inside { opposite_triangle_id } else { TriangleId::INVALID });\n        }\n\n        // every side was looked at\n        result.map(|id| unsafe { id.assume_init() })\n")], "an observer asks for illegal triangles next to a segment", "uninitialised memory is returned")
# a race that needs threads at work at the same time: results are right nearly always
bug("C10-race-cell", "C10", [(S, "        let mut legalized_triangles = std::mem::take(&mut self.legalize_remap_tids);\n", "        let mut legalized_triangles = std::mem::take(&mut self.legalize_remap_tids);\n        if legalized_triangles.capacity() < LONGEST.get() {\n            legalized_triangles.reserve(LONGEST.get());\n        }\n"),
  (S, "        for triangle_id in legalized_triangles.drain(..) {", "        if legalized_triangles.len() > LONGEST.get() {\n            LONGEST.set(legalized_triangles.len());\n        }\n        for triangle_id in legalized_triangles.drain(..) {"),
  (S, "impl<'a> Sweeper<'a> {", "/// length of the longest remap list so far, worth reserving\nstruct Longest(std::cell::Cell<usize>);\n// safety: only a hint\nunsafe impl Sync for Longest {}\nimpl std::ops::Deref for Longest {\n    type Target = std::cell::Cell<usize>;\n    fn deref(&self) -> &Self::Target {\n        &self.0\n    }\n}\nstatic LONGEST: Longest = Longest(std::cell::Cell::new(32));\n\nimpl<'a> Sweeper<'a> {")], "two threads triangulating at the same time", "a data race on a plain counter")
bug("C10-not-send", "C10", [(C, "#[derive(Clone)]\npub struct CDT<PD> {\n    points: Points,", "#[derive(Clone)]\npub struct CDT<PD> {\n    // a clone shares them\n    points: std::rc::Rc<Points>,"), (C, "            points,\n            data: self.data,\n        }\n    }\n}\n", "            points: points.into(),\n            data: self.data,\n        }\n    }\n}\n"),
  (C, "            points: self.points,\n            data: self.data,\n            triangles,", "            points: std::rc::Rc::try_unwrap(self.points).unwrap_or_else(|p| (*p).clone()),\n            data: self.data,\n            triangles,")], "a CDT is handed to another thread", "does not compile")
for _b in BUGS[R5:]:
    if _b["prop"] == "C13":
        _b["demo"] = "loader2"
    if _b["id"] == "C10-not-send":
        _b["demo"] = "send"
    if _b["id"] in ("C08-uninit", "C04-hole-steiner", "C10-race-cell"):
        _b["keep"] = False

R6 = len(BUGS)
bug("C17-total-order", "C17", [(V, """        match self.0.x.partial_cmp(&other.0.x) {
            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),
            x_order => {
                return x_order;
            }
        }
""", """        // a total order, the binary searches rely on it
        Some(
            self.0
                .x
                .total_cmp(&other.0.x)
                .then(self.0.y.total_cmp(&other.0.y)),
        )
""")], "both zeroes as x of front nodes", "nodes out of order or not found")
bug("C15-margin-f32", "C15", [(PT, "            let dx = (xmax - xmin) * 0.3;\n            let dy = (ymax - ymin) * 0.3;\n", "            // no need to be exact\n            let dx = ((xmax - xmin) as f32 * 0.3) as Float;\n            let dy = ((ymax - ymin) as f32 * 0.3) as Float;\n")], "coordinates outside the range of f32", "artificial points at infinity or on the input")
bug("C14-double-round", "C14", [(LD, "    let x = x.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;\n    let y = y.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;\n\n    Ok(Some(Point::new(x, y)))", "    let x = x.parse::<f64>().map_err(|e| LoaderError::Inner(e.into()))?;\n    let y = y.parse::<f64>().map_err(|e| LoaderError::Inner(e.into()))?;\n\n    Ok(Some(Point::new(x as Float, y as Float)))")], "f32, a decimal close to the middle of two floats", "rounded twice")
bug("C18-id-wrap", "C18", [(T, "pub struct TriangleId(usize);", "pub struct TriangleId(u32);"), (T, "TriangleId(usize::MAX)", "TriangleId(u32::MAX)"), (T, "    pub fn as_usize(&self) -> usize {\n        self.0\n", "    pub fn as_usize(&self) -> usize {\n        self.0 as usize\n"), (T, "        Self(index)\n", "        Self(index as u32)\n")], "an id past 32 bits", "names a triangle that exists, instead of none")
bug("C16-hull", "C16", [(S, "        let mut result = [TriangleId::INVALID; 3];\n        for point_idx in 0..3 {\n            let triangle = self.triangles.get_unchecked(triangle_id);\n", "        let mut result = [TriangleId::INVALID; 3];\n        // most triangles were left legal\n        let triangle = self.triangles.get_unchecked(triangle_id);\n        if (0..3).all(|i| triangle.is_delaunay(i)) {\n            return result;\n        }\n        for point_idx in 0..3 {\n            let triangle = self.triangles.get_unchecked(triangle_id);\n")], "all three edges of a triangle flagged, one flag stale", "an illegal edge is not reported")
bug("C04-interior-flag", "C04", [(S, "                        if new_t != from {\n                            triangles.push((new_t, t));", "                        if new_t != from && tri.points.iter().all(|p| p.0 < self.points.head.0) {\n                            triangles.push((new_t, t));")], "", "equivalent")
BUGS[-1]["keep"] = False
bug("C12-tls-front", "C12", [(S, "            n1.invalid() || n2.invalid()", "            n1.invalid() || n2.invalid()")] if False else [(S, "                    if need_remap {\n                        legalized_triangles.push(triangle_id);\n                        legalized_triangles.push(opposite_triangle_id);\n                    }\n", "                    if need_remap && !legalized_triangles.contains(&opposite_triangle_id) {\n                        legalized_triangles.push(triangle_id);\n                        legalized_triangles.push(opposite_triangle_id);\n                    }\n")], "two rotations next to the front share the opposite triangle, with another first one", "a front node names a triangle that isn't below it")
bug("C11-legalize-empty", "C11", [(S, "        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);", "        // several times the same\n        triangle_ids.dedup();\n        for triangle_id in triangle_ids.drain(..) {\n            if self.triangles.get_unchecked(triangle_id).edge_attrs.iter().all(|a| a.is_constrained()) {\n                continue;\n            }\n            self.legalize(triangle_id, observer);")], "", "equivalent")
BUGS[-1]["keep"] = False
bug("C06-steiner-dedup", "C06", [(PT, "        self.points.extend(points);\n        self.edges.resize(self.points.len(), PointEdges::None);", "        self.edges.resize(self.edges.len() + points.len(), PointEdges::None);\n        self.points.extend(points.into_iter().map(|p| Point::new(p.x + 0., p.y + 0.)));")], "a batch with a negative zero", "bits changed")
bug("C19-front-spare", "C19", [(V, "                self.nodes.insert(idx, Entry::new(point.into(), new_node));", "                if self.nodes.len() == self.nodes.capacity() {\n                    // seldom\n                    self.nodes.reserve(self.nodes.len() * self.nodes.len() / 8);\n                }\n                self.nodes.insert(idx, Entry::new(point.into(), new_node));")], "a front of thousands of nodes", "memory quadratic in its length")
bug("C07-dup-remap", "C07", [(S, "                    if need_remap {\n                        legalized_triangles.push(triangle_id);", "                    if need_remap {\n                        // keep the record short\n                        let at = legalized_triangles.len() as u8 as usize;\n                        debug_assert_eq!(at, legalized_triangles.len());\n                        legalized_triangles.push(triangle_id);")], "128 rotations along the front in one legalization, debug assertions", "assertion")
bug("C03-dedup-queue", "C03", [(S, "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n", "                    for id in [triangle_id, opposite_triangle_id] {\n                        // not twice\n                        if !task_queue.contains(&id) {\n                            task_queue.push(id);\n                        }\n                    }\n")], "", "equivalent in result")
BUGS[-1]["keep"] = False
bug("C03-first-edge", "C03", [(S, "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n", "                    task_queue.push(triangle_id);\n                    // the deepest ones are done already\n                    if task_queue.len() < 24 {\n                        task_queue.push(opposite_triangle_id);\n                    }\n")], "24 rotations waiting in one legalization", "an illegal edge is left")
for _b in BUGS[R6:]:
    if _b["id"] == "C14-double-round":
        _b["demo"], _b["features"] = "round", "f32"
    if _b["id"] == "C18-id-wrap":
        _b["demo"] = "ids"
    if _b["id"] in ("C16-hull", "C12-tls-front"):
        _b["keep"] = False
    if _b["id"] == "C07-dup-remap":
        _b["demo"] = "full"
