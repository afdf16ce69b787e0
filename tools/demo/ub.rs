mod poly;
use poly2tri_rs::{Edge, Float, Observer, Point, PointId, Sweeper, TriangleId};
use std::panic::{catch_unwind, AssertUnwindSafe};
// safe calls with foreign ids and far points; built with the standard library's checks
// of unsafe preconditions, which abort
type F = Box<dyn Fn(&Sweeper)>;
#[derive(Default)]
struct O {
    points: Vec<PointId>,
    nodes: Vec<F>,
    keep: bool,
}
fn quiet(f: impl FnOnce()) {
    let _ = catch_unwind(AssertUnwindSafe(f));
}
impl O {
    fn poke(&mut self, c: &Sweeper) {
        let n = c.triangles.len();
        for k in [0, n - 1, n, n + 1, n + 1000, usize::MAX - 1, usize::MAX] {
            let t = TriangleId::from_index(k);
            quiet(|| drop(std::hint::black_box(t.try_get(c.triangles).map(|t| t.points))));
            quiet(|| drop(std::hint::black_box(t.get(c.triangles).points)));
        }
        let af = &c.advancing_front;
        let len = af.iter().count();
        for k in [0, 1, len - 1, len, len + 1, usize::MAX] {
            quiet(|| {
                if let Some(n) = af.nth(k) {
                    std::hint::black_box((n.next().map(|n| n.point()), n.prev().map(|n| n.point())));
                }
            });
        }
        let far = [-1e30, -1., 0., 1., 1e30, Float::NAN, Float::INFINITY];
        for x in far {
            for y in far {
                quiet(|| drop(std::hint::black_box(af.locate_node(Point::new(x, y)).map(|n| n.point()))));
                quiet(|| drop(std::hint::black_box(af.get_node(Point::new(x, y)).map(|n| n.point()))));
            }
        }
        for p in &self.points {
            quiet(|| drop(std::hint::black_box(c.points.get_point(*p))));
        }
        for f in &self.nodes {
            f(c);
        }
        if self.keep {
            if self.points.len() < 500 {
                self.points = c.points.iter().map(|p| p.0).collect();
            }
            for k in 0..len {
                if self.nodes.len() > 400 {
                    break;
                }
                let Some(n) = af.nth(k) else { continue };
                let id = n.get_node_id();
                self.nodes.push(Box::new(move |c: &Sweeper| {
                    let af = &c.advancing_front;
                    quiet(|| drop(std::hint::black_box(af.get_node_with_id(id).map(|n| n.point()))));
                    quiet(|| drop(std::hint::black_box(af.locate_next_node(id).map(|n| n.point()))));
                    quiet(|| drop(std::hint::black_box(af.locate_prev_node(id).map(|n| n.point()))));
                }));
            }
        }
    }
}
impl Observer for O {
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.poke(c);
    }
    fn edge_event(&mut self, _: Edge, c: &Sweeper) {
        self.poke(c);
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.poke(c);
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        if !i.to_string().contains("unsafe precondition") {
            return;
        }
        eprintln!("{i}");
    }));
    // ids to keep from a large triangulation
    let mut o = O { keep: true, ..Default::default() };
    let big: Vec<Point> = (0..120).rev().map(|i| Point::new(i as Float, ((i * 7) % 5 + 3 * (i % 2)) as Float)).chain([Point::new(60., 1e4)]).collect();
    quiet(|| drop(poly2tri_rs::Builder::new(big).build().triangulate_with_observer(&mut o)));
    o.keep = false;
    for text in [include_str!("input.txt"), "0 0\n4 1\n3 4\n-1 3\n", "0 0\n1 0\n2 0\n", "0 0\n", "0 0\n1 1\n"] {
        let p = poly::parse(text);
        quiet(|| {
            let mut t = p.cdt().triangulate_with_observer(&mut o);
            std::hint::black_box(t.triangle_list_indices());
            for _ in 0..1000 {
                if std::hint::black_box(t.next()).is_none() {
                    break;
                }
            }
            t.next();
        });
    }
}
