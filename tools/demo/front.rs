mod poly;
use poly2tri_rs::{Edge, Float, Observer, Point, PointId, Sweeper, TriangleId};
// front lookups against a list of the nodes, also with ids kept from earlier
type F = Box<dyn Fn(&Sweeper) -> [Option<usize>; 3]>;
struct O {
    all: Vec<Point>,
    saved: Vec<(usize, Point, F)>,
    seen: std::collections::HashSet<(usize, usize)>,
}
fn lt(a: Point, b: Point) -> bool {
    (a.x, a.y) < (b.x, b.y)
}
impl O {
    fn look(&mut self, c: &Sweeper) {
        let af = &c.advancing_front;
        let list: Vec<(usize, Point)> = af.iter().map(|n| (n.point_id().as_usize(), n.point())).collect();
        let id = |i: Option<usize>| i.map(|i| list[i].0);
        for i in 0..list.len() + 2 {
            let n = af.nth(i);
            assert_eq!(n.as_ref().map(|n| n.point_id().as_usize()), list.get(i).map(|x| x.0), "nth");
            let Some(n) = n else { continue };
            assert_eq!(n.next().map(|n| n.point_id().as_usize()), list.get(i + 1).map(|x| x.0), "next");
            assert_eq!(n.prev().map(|n| n.point_id().as_usize()), i.checked_sub(1).map(|i| list[i].0), "prev");
            if self.saved.len() < 1500 && self.seen.insert((list[i].0, i)) {
                let nid = n.get_node_id();
                self.saved.push((
                    list[i].0,
                    list[i].1,
                    Box::new(move |c: &Sweeper| {
                        let af = &c.advancing_front;
                        let g = |n: Option<usize>| n;
                        [
                            g(af.get_node_with_id(nid).map(|n| n.point_id().as_usize())),
                            g(af.locate_next_node(nid).map(|n| n.point_id().as_usize())),
                            g(af.locate_prev_node(nid).map(|n| n.point_id().as_usize())),
                        ]
                    }),
                ));
            }
        }
        let mut q: Vec<Point> = self.all.clone();
        for (_, p) in &list {
            q.push(*p);
            q.push(Point::new(p.x, p.y + 1.));
            q.push(Point::new(p.x.next_down(), p.y));
            q.push(Point::new(p.x, p.y.next_up()));
        }
        let w: Float = list[list.len() - 1].1.x - list[0].1.x;
        q.push(Point::new(list[0].1.x - w, 0.));
        q.push(Point::new(list[0].1.x + 2. * w, 0.));
        for p in q {
            let below = (0..list.len()).rev().find(|&i| !lt(p, list[i].1));
            assert_eq!(af.locate_node(p).map(|n| n.point_id().as_usize()), id(below), "locate_node({p:?})");
            let eq = (0..list.len()).find(|&i| list[i].1.eq(&p));
            assert_eq!(af.get_node(p).map(|n| n.point_id().as_usize()), id(eq), "get_node({p:?})");
        }
        for (pid, p, f) in &self.saved {
            let got = f(c);
            assert_eq!(got[0], list.iter().find(|n| n.0 == *pid).map(|n| n.0), "node with id");
            assert_eq!(got[1], list.iter().find(|n| lt(*p, n.1)).map(|n| n.0), "next of id");
            assert_eq!(got[2], list.iter().rev().find(|n| lt(n.1, *p)).map(|n| n.0), "prev of id");
        }
    }
}
impl Observer for O {
    fn enter_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look(c);
    }
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look(c);
    }
    fn edge_event(&mut self, _: Edge, c: &Sweeper) {
        self.look(c);
    }
    fn will_legalize(&mut self, _: TriangleId, c: &Sweeper) {
        self.look(c);
    }
    fn legalize_step(&mut self, _: TriangleId, c: &Sweeper) {
        self.look(c);
    }
    fn legalized(&mut self, _: TriangleId, c: &Sweeper) {
        self.look(c);
    }
}
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    let mut o = O { all: p.all(), saved: vec![], seen: Default::default() };
    poly::check(&p, &poly::tris(&p.cdt().triangulate_with_observer(&mut o).triangle_list_indices()));
}
