mod poly;
use poly2tri_rs::{Edge, Observer, Point, PointId, Sweeper, TriangleId};
use std::collections::{HashMap, HashSet};
// the mesh and front an observer sees
#[derive(Default)]
struct O {
    all: Vec<Point>,
    want: HashSet<(usize, usize)>,
    done: HashSet<usize>,
    edges: HashSet<(usize, usize)>,
    result: Vec<[usize; 3]>,
}
impl O {
    fn look(&mut self, c: &Sweeper, settled: bool) {
        let (head, tail) = (c.points.head.as_usize(), c.points.tail.as_usize());
        let at = |p: PointId| c.points.get_point(p).unwrap();
        let mut dir = HashMap::new();
        let mut used = HashSet::new();
        for (id, t) in c.triangles.iter() {
            let v = t.points;
            assert!(poly::orient(at(v[0]), at(v[1]), at(v[2])) >= 0., "inverted triangle");
            for k in 0..3 {
                used.insert(v[k].as_usize());
                let e = (v[(k + 1) % 3].as_usize(), v[(k + 2) % 3].as_usize());
                assert!(dir.insert(e, (id, k, t.is_constrained(k))).is_none(), "overlap");
            }
        }
        let mut want = self.done.clone();
        want.extend([head, tail]);
        assert_eq!(used, want, "vertices of the mesh");
        let mut border = HashSet::new();
        for (&(a, b), &(id, k, cons)) in &dir {
            let t = id.get(c.triangles);
            let key = (a.min(b), a.max(b));
            assert!(!cons || self.want.contains(&key), "flag on an edge that is no segment");
            assert!(!self.edges.contains(&key) || cons, "segment {key:?} without flag");
            match dir.get(&(b, a)) {
                Some(&(o, ok, oc)) => {
                    assert!(t.neighbors[k] == o && cons == oc, "neighbour or flag differs");
                    if settled && !cons {
                        let q = at(o.get(c.triangles).points[ok]);
                        assert!(poly::incircle(at(t.points[0]), at(t.points[1]), at(t.points[2]), q) <= 0., "illegal edge");
                    }
                }
                None => {
                    assert!(t.neighbors[k].invalid());
                    border.insert((a, b));
                }
            }
        }
        for &(a, b) in &self.edges {
            assert!(dir.contains_key(&(a, b)) || dir.contains_key(&(b, a)), "segment is no edge");
        }
        let nodes: Vec<_> = c.advancing_front.iter().map(|n| (n.point_id().as_usize(), n.point(), n.triangle)).collect();
        assert!(nodes[0].0 == head && nodes[nodes.len() - 1].0 == tail);
        let mut front = HashSet::from([(head, tail)]);
        for w in nodes.windows(2) {
            assert!((w[0].1.x, w[0].1.y) < (w[1].1.x, w[1].1.y), "front goes back");
            front.insert((w[1].0, w[0].0));
            assert_eq!(w[0].2, dir.get(&(w[1].0, w[0].0)).map(|d| d.0), "triangle below the front");
        }
        assert_eq!(front, border, "border of the mesh");
    }
}
impl Observer for O {
    fn enter_point_event(&mut self, p: PointId, c: &Sweeper) {
        if self.done.is_empty() {
            let n = self.all.len();
            self.done.extend(c.triangles.iter().flat_map(|t| t.1.points).map(|p| p.as_usize()).filter(|&p| p < n));
        }
        self.done.insert(p.as_usize());
    }
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look(c, true);
    }
    fn edge_event(&mut self, e: Edge, c: &Sweeper) {
        let (a, b) = (e.p.as_usize(), e.q.as_usize());
        self.edges.insert((a.min(b), a.max(b)));
        self.look(c, true);
    }
    fn legalized(&mut self, _: TriangleId, c: &Sweeper) {
        self.look(c, false);
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        assert!(c.result.is_empty() && c.triangles.iter().all(|t| !t.1.interior), "marks before the end");
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.look(c, true);
        let ids: HashSet<TriangleId> = c.result.iter().copied().collect();
        for (id, t) in c.triangles.iter() {
            assert_eq!(t.interior, ids.contains(&id), "interior mark");
        }
        self.result = c.result.iter().map(|t| t.get(c.triangles).points.map(|p| p.as_usize())).collect();
    }
}
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    let mut o = O { all: p.all(), want: p.segments(), ..Default::default() };
    let t = poly::tris(&p.cdt().triangulate_with_observer(&mut o).triangle_list_indices());
    poly::check(&p, &t);
    assert_eq!(o.result, t);
}
