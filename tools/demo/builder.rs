mod poly;
use poly2tri_rs::{Builder, Observer, PointId, Sweeper};
use std::rc::Rc;
// every way of giving the polygon's holes and points keeps points and data in step
struct Stop;
impl Observer for Stop {
    fn exit_point_event(&mut self, _: PointId, _: &Sweeper) {
        panic!("observer gives up")
    }
}
// sources without a point add nothing, arrays and tuples are points
fn adapters() {
    use poly2tri_rs::{AsPoint, Point};
    for v in [[-0., 0.], [0., -0.], [1e-300 as _, -1.5]] {
        for p in [(v, 1).point(), Point::new(v[0], v[1]).point(), (Point::new(v[0], v[1]), 'a').point()] {
            assert_eq!([p.x.to_bits(), p.y.to_bits()], [v[0].to_bits(), v[1].to_bits()], "{v:?} as a point");
        }
    }
    let square = || Builder::new([[0., 0.], [9., 0.], [10., 10.], [0., 9.]].map(|[x, y]| Point::new(x, y)).to_vec());
    let t = square().add_hole(vec![]).add_holes([vec![], vec![]]).add_steiner_points(vec![]).build().triangulate();
    assert_eq!(t.points().len(), 4);
    assert_eq!(t.triangle_list_indices(), square().build().triangulate().triangle_list_indices());
}
fn main() {
    adapters();
    let p = poly::parse(include_str!("input.txt"));
    let all = p.all();
    let n = all.len();
    let reference = p.cdt().triangulate().triangle_list_indices();
    poly::check(&p, &poly::tris(&reference));
    let tokens: Vec<Rc<usize>> = (0..n).map(Rc::new).collect();
    for way in 0..32 {
        let mut at = 0;
        let mut take = |k: usize| {
            at += k;
            tokens[at - k..at].to_vec()
        };
        let mut b = Builder::new((p.outer.clone(), take(p.outer.len())));
        if way & 1 == 0 {
            for h in &p.holes {
                b = b.add_hole((h.clone(), take(h.len())));
            }
        } else {
            let v: Vec<_> = p.holes.iter().map(|h| (h.clone(), take(h.len()))).collect();
            b = if way & 8 == 0 { b.add_holes(v) } else { let mut v = v.into_iter(); b.add_holes(std::iter::from_fn(move || v.next())) };
        }
        let other = (way & 4 != 0).then(|| b.clone());
        if way & 16 != 0 {
            // cloned into another builder, which then takes its place
            let mut c = Builder::new((p.outer[..2].to_vec(), vec![tokens[1].clone(); 2]));
            c.clone_from(&b);
            b = c;
        }
        if way & 2 == 0 {
            for s in &p.steiner {
                b = b.add_steiner_point(*s, take(1).remove(0));
            }
        } else {
            b = b.add_steiner_points((p.steiner.clone(), take(p.steiner.len())));
        }
        drop(other);
        let cdt = b.build();
        let again = cdt.clone();
        std::panic::set_hook(Box::new(|_| {}));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| again.triangulate_with_observer(&mut Stop).count()));
        let _ = std::panic::take_hook();
        assert!(r.is_err());
        let t = cdt.triangulate();
        assert_eq!(t.points().len(), n);
        for i in 0..n {
            assert_eq!([t.points()[i].x.to_bits(), t.points()[i].y.to_bits()], [all[i].x.to_bits(), all[i].y.to_bits()], "point {i}");
            assert_eq!(*t.data()[i], i, "datum of point {i}, way {way}");
        }
        assert_eq!(t.triangle_list_indices(), reference, "way {way}");
        drop(t);
        for (i, k) in tokens.iter().enumerate() {
            assert_eq!(Rc::strong_count(k), 1, "datum {i} was not dropped exactly once");
        }
    }
}
