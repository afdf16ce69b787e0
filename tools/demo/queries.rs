mod poly;
use poly2tri_rs::{Edge, Observer, Point, PointId, Sweeper, TriangleId};
// point and triangle queries against the input and the triangles' corners
struct O {
    p: poly::Poly,
}
impl O {
    fn points(&self, c: &Sweeper) {
        let all = self.p.all();
        let n = all.len();
        let low = |a: usize, b: usize| (all[a].y, all[a].x) < (all[b].y, all[b].x);
        let mut lower = vec![vec![]; n];
        for (a, b) in self.p.segments() {
            if low(a, b) {
                lower[b].push(a)
            } else {
                lower[a].push(b)
            }
        }
        lower.iter_mut().for_each(|l| l.sort());
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by(|&a, &b| (all[a].y, all[a].x).partial_cmp(&(all[b].y, all[b].x)).unwrap());
        let ids = |e: &mut dyn Iterator<Item = PointId>| {
            let mut v: Vec<usize> = e.map(|i| i.as_usize()).collect();
            v.sort();
            v
        };
        assert_eq!(c.points.len(), n + 2, "len");
        assert_eq!(c.points.iter().count(), n + 2, "iter");
        for (i, q, mut e) in c.points.iter() {
            if i.as_usize() < n {
                assert!(q.eq(&all[i.as_usize()]), "iter: point {i:?}");
                assert_eq!(ids(&mut e), lower[i.as_usize()], "iter: edges of {i:?}");
            } else {
                assert_eq!(e.count(), 0, "edges of an artificial point");
            }
            assert!(c.points.get_point(i).unwrap().eq(q), "get_point");
        }
        assert_eq!(c.points.iter_without_fake().count(), n, "iter_without_fake");
        for (i, q, mut e) in c.points.iter_without_fake() {
            assert!(q.eq(&all[i.as_usize()]), "iter_without_fake: point {i:?}");
            assert_eq!(ids(&mut e), lower[i.as_usize()], "iter_without_fake: edges of {i:?}");
        }
        for from in [0, 1, 2, n / 2, n] {
            let got: Vec<usize> = c.points.iter_point_by_y(from).map(|x| x.0.as_usize()).collect();
            assert_eq!(got, order[from.min(n)..], "iter_point_by_y({from})");
        }
        for (i, q, mut e) in c.points.iter_point_by_y(0) {
            assert!(q.eq(&all[i.as_usize()]), "iter_point_by_y: point {i:?}");
            assert_eq!(ids(&mut e), lower[i.as_usize()], "iter_point_by_y: edges of {i:?}");
        }
        for k in 0..n + 4 {
            assert_eq!(c.points.get_id_by_y(k).map(|i| i.as_usize()), order.get(k).copied(), "get_id_by_y({k})");
        }
        let (h, t) = (c.points.get_point(c.points.head).unwrap(), c.points.get_point(c.points.tail).unwrap());
        for q in &all {
            assert!(h.x < q.x && q.x < t.x && h.y < q.y && t.y < q.y, "artificial points {h:?} {t:?} and {q:?}");
        }
        let id: Vec<PointId> = c.points.iter().map(|x| x.0).collect();
        for a in 0..n {
            for b in 0..n.min(20) {
                if a != b {
                    let e = Edge::new((id[a], &all[a]), (id[b], &all[b]));
                    let w = if low(a, b) { (a, b) } else { (b, a) };
                    assert_eq!((e.p.as_usize(), e.q.as_usize()), w, "Edge::new");
                }
            }
        }
    }
    fn look(&self, c: &Sweeper) {
        let s = &c.triangles;
        let strange: Vec<PointId> = c.points.iter().map(|x| x.0).take(12).collect();
        for (id, t) in s.iter() {
            assert_eq!(s.get(id).unwrap().points, t.points, "get");
            assert_eq!(id.get(s).points, t.points, "id.get");
            let c3 = t.points;
            let flags = |t: &dyn Fn(usize) -> (bool, bool)| [t(0), t(1), t(2)];
            let all = flags(&|i| (t.is_constrained(i), t.is_delaunay(i)));
            for i in 0..3 {
                let (p, a, b) = (c3[i], (i + 1) % 3, (i + 2) % 3);
                assert_eq!(t.point_index(p), Some(i), "point_index");
                assert_eq!(t.point_ccw(p), c3[a], "point_ccw");
                assert_eq!(t.point_cw(p), c3[b], "point_cw");
                assert_eq!(t.neighbor_across(p), t.neighbors[i], "neighbor_across");
                assert_eq!(t.neighbor_ccw(p), t.neighbors[b], "neighbor_ccw");
                assert_eq!(t.neighbor_cw(p), t.neighbors[a], "neighbor_cw");
                assert_eq!(t.constrained_edge_cw(p), all[a].0, "constrained_edge_cw");
                for j in 0..3 {
                    assert_eq!(t.edge_index(p, c3[j]), (i != j).then(|| 3 - i - j), "edge_index");
                }
                for &f in strange.iter().filter(|f| !c3.contains(f)) {
                    assert_eq!(t.edge_index(p, f), None, "edge_index of a strange point");
                    assert_eq!(t.edge_index(f, p), None, "edge_index of a strange point");
                    assert_eq!(t.point_index(f), None, "point_index of a strange point");
                    let mut u = *t;
                    u.set_constrained_for_edge(p, f);
                    assert_eq!(flags(&|i| (u.is_constrained(i), u.is_delaunay(i))), all, "marking a strange edge");
                    let mut u = *t;
                    u.rotate_cw(p, f);
                    let k = u.point_index(p).expect("corner lost");
                    assert_eq!([u.points[(k + 1) % 3], u.points[(k + 2) % 3]], [f, c3[b]], "rotate_cw");
                }
                for v in [true, false] {
                    let mut u = *t;
                    let mut m = all;
                    u.set_constrained(i, v);
                    m[i].0 = v;
                    assert_eq!(flags(&|i| (u.is_constrained(i), u.is_delaunay(i))), m, "set_constrained");
                    u.set_delaunay(i, v);
                    m[i].1 = v;
                    assert_eq!(flags(&|i| (u.is_constrained(i), u.is_delaunay(i))), m, "set_delaunay");
                    u.set_delaunay(a, !v);
                    m[a].1 = !v;
                    assert_eq!(flags(&|i| (u.is_constrained(i), u.is_delaunay(i))), m, "set_delaunay");
                    u.set_constrained_for_edge(c3[i], c3[a]);
                    m[b].0 = true;
                    assert_eq!(flags(&|i| (u.is_constrained(i), u.is_delaunay(i))), m, "set_constrained_for_edge");
                    u.set_edge_attr_cw(p, t.edge_attrs[i]);
                    m[a] = all[i];
                    assert_eq!(flags(&|i| (u.is_constrained(i), u.is_delaunay(i))), m, "set_edge_attr_cw");
                    u.set_edge_attr_ccw(p, t.edge_attrs[i]);
                    m[b] = all[i];
                    assert_eq!(flags(&|i| (u.is_constrained(i), u.is_delaunay(i))), m, "set_edge_attr_ccw");
                    u.clear_neighbors();
                    assert_eq!(u.neighbors, [TriangleId::INVALID; 3], "clear_neighbors");
                    assert_eq!(flags(&|i| (u.is_constrained(i), u.is_delaunay(i))), m, "clear_neighbors");
                }
            }
            for (oid, o) in s.iter().take(60) {
                if oid != id {
                    let m = (0..9).map(|x| (x / 3, x % 3)).find(|&(i, j)| {
                        c3[(i + 1) % 3] == o.points[(j + 2) % 3] && c3[(i + 2) % 3] == o.points[(j + 1) % 3]
                    });
                    assert_eq!(t.common_edge_index(o), m, "common_edge_index");
                    if let Some((i, j)) = m {
                        assert_eq!(o.opposite_point(t, c3[i]), o.points[j], "opposite_point");
                    }
                }
            }
        }
        assert!(s.get(TriangleId::from_index(s.len())).is_none(), "get past the end");
    }
}
impl Observer for O {
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look(c);
    }
    fn edge_event(&mut self, _: Edge, c: &Sweeper) {
        self.look(c);
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.points(c);
        self.look(c);
    }
}
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    poly::check(&p, &poly::tris(&p.cdt().triangulate_with_observer(&mut O { p: p.clone() }).triangle_list_indices()));
    let _: Vec<Point> = vec![];
}
