mod poly;
use poly2tri_rs::{Edge, Observer, Point, PointId, Sweeper, TriangleId};
use std::collections::HashSet;
#[derive(Default)]
struct O {
    all: Vec<Point>,
    events: Vec<usize>,
    edges: Vec<(usize, usize)>,
    open: Option<usize>,
    last: Option<usize>,
    legal: Option<TriangleId>,
    done: usize,
    finalized: usize,
}
impl O {
    fn key(&self, i: usize) -> (poly2tri_rs::Float, poly2tri_rs::Float) {
        (self.all[i].y, self.all[i].x)
    }
}
impl Observer for O {
    fn enter_point_event(&mut self, p: PointId, _: &Sweeper) {
        assert!(self.open.is_none() && self.legal.is_none() && self.done == 0);
        if let Some(&l) = self.events.last() {
            assert!(self.key(l) < self.key(p.as_usize()), "points out of order");
        }
        self.open = Some(p.as_usize());
        self.last = None;
        self.events.push(p.as_usize());
    }
    fn exit_point_event(&mut self, p: PointId, _: &Sweeper) {
        assert!(self.open == Some(p.as_usize()) && self.legal.is_none());
        self.open = None;
        self.last = Some(p.as_usize());
    }
    fn edge_event(&mut self, e: Edge, _: &Sweeper) {
        assert!(self.open.is_none() && self.legal.is_none() && self.last == Some(e.q.as_usize()), "edge event out of place");
        assert!(self.key(e.p.as_usize()) < self.key(e.q.as_usize()));
        self.edges.push((e.p.as_usize().min(e.q.as_usize()), e.p.as_usize().max(e.q.as_usize())));
    }
    fn will_legalize(&mut self, t: TriangleId, _: &Sweeper) {
        assert!(self.legal.is_none() && self.done == 0 && (self.open.is_some() || self.last.is_some()));
        self.legal = Some(t);
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        assert!(self.legal.is_some());
    }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, _: &Sweeper) {
        assert!(self.legal.is_some() && t != o);
    }
    fn legalized(&mut self, t: TriangleId, _: &Sweeper) {
        assert!(self.legal == Some(t));
        self.legal = None;
    }
    fn sweep_done(&mut self, _: &Sweeper) {
        assert!(self.done == 0 && self.finalized == 0 && self.legal.is_none());
        self.done += 1;
    }
    fn finalized(&mut self, _: &Sweeper) {
        assert!(self.done == 1 && self.finalized == 0);
        self.finalized += 1;
    }
}
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    let mut o = O { all: p.all(), ..Default::default() };
    let t = p.cdt().triangulate_with_observer(&mut o);
    poly::check(&p, &poly::tris(&t.triangle_list_indices()));
    assert!(o.finalized == 1 && o.events.len() + 1 == o.all.len());
    assert_eq!(o.edges.len(), p.segments().len());
    assert_eq!(o.edges.iter().copied().collect::<HashSet<_>>(), p.segments());
}
