mod poly;
use poly2tri_rs::{Edge, Observer, PointId, Sweeper, TriangleId};
use std::collections::HashMap;
struct O(usize);
impl O {
    fn look(&mut self, c: &Sweeper) {
        let at = |p: PointId| c.points.get_point(p).unwrap();
        let mut dir = HashMap::new();
        for (id, t) in c.triangles.iter() {
            for k in 0..3 {
                dir.insert((t.points[(k + 1) % 3], t.points[(k + 2) % 3]), (id, k));
            }
        }
        let mut want = vec![];
        for (&(a, b), &(id, k)) in &dir {
            let Some(&(o, ok)) = dir.get(&(b, a)) else { continue };
            let (t, u) = (id.get(c.triangles), o.get(c.triangles));
            if t.neighbors[k] != o || t.is_constrained(k) && u.is_constrained(ok) {
                continue;
            }
            let p = t.points.map(at);
            if poly::incircle(p[0], p[1], p[2], at(u.points[ok])) > 0. {
                want.push((id.as_usize(), o.as_usize()));
            }
        }
        let mut got: Vec<_> = c.illegal_triangles().iter().map(|p| (p.0.as_usize(), p.1.as_usize())).collect();
        got.sort();
        want.sort();
        self.0 += want.len();
        assert_eq!(got, want, "illegal pairs");
        assert_eq!(c.verify_triangles(), want.is_empty());
    }
}
impl Observer for O {
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look(c);
    }
    fn edge_event(&mut self, _: Edge, c: &Sweeper) {
        self.look(c);
    }
    fn will_legalize(&mut self, _: TriangleId, c: &Sweeper) {
        self.look(c);
    }
    fn legalize_step(&mut self, _: TriangleId, c: &Sweeper) {
        self.look(c);
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, c: &Sweeper) {
        self.look(c);
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.look(c);
    }
}
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    let mut o = O(0);
    poly::check(&p, &poly::tris(&p.cdt().triangulate_with_observer(&mut o).triangle_list_indices()));
}
