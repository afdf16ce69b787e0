// does what was triangulated before, or around, change a result?
use poly2tri_rs::{Builder, Observer, Point, PointId, Sweeper};
fn tri(outline: &[(f64, f64)], free: &[(f64, f64)]) -> Vec<u32> {
    build(outline, free).triangulate().triangle_list_indices()
}
fn build(outline: &[(f64, f64)], free: &[(f64, f64)]) -> poly2tri_rs::CDT<()> {
    let v = |s: &[(f64, f64)]| s.iter().map(|&(x, y)| Point::new(x as _, y as _)).collect::<Vec<_>>();
    Builder::new(v(outline)).add_steiner_points(v(free)).build()
}
struct Bomb;
impl Observer for Bomb {
    fn exit_point_event(&mut self, _: PointId, _: &Sweeper) {
        panic!("observer gives up");
    }
}
struct Nest(Vec<u32>);
impl Observer for Nest {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        if self.0.is_empty() {
            self.0 = tri(&SQUARE, &[(3., 4.), (5., 8.)]);
        }
    }
}
const SQUARE: [(f64, f64); 4] = [(0., 0.), (10., 0.), (10., 10.), (0., 10.)];
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(100));
        eprintln!("no end");
        std::process::exit(9);
    });
    let alone = |f: &'static [(f64, f64)]| std::thread::spawn(move || tri(&SQUARE, f)).join().unwrap();
    // inputs that have much in common
    const A: &[(f64, f64)] = &[(3., 4.), (5., 8.)];
    const B: &[(f64, f64)] = &[(3., 8.), (5., 4.)];
    let (a, b) = (alone(A), alone(B));
    assert_eq!(tri(&SQUARE, A), a);
    assert_eq!(tri(&SQUARE, B), b, "after a similar input");
    assert_eq!(tri(&SQUARE, A), a, "after a similar input");
    // one inside another
    let mut nest = Nest(vec![]);
    assert_eq!(build(&SQUARE, B).triangulate_with_observer(&mut nest).triangle_list_indices(), b, "around another");
    assert_eq!(nest.0, a, "inside another");
    // after one that was aborted
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| build(&SQUARE, A).triangulate_with_observer(&mut Bomb)).is_err());
    let r = std::panic::catch_unwind(|| tri(&SQUARE, B));
    let _ = std::panic::take_hook();
    assert_eq!(r.expect("panics after an aborted one"), b, "after an aborted one");
    // after very many
    let mut s = 7u64;
    let star: Vec<(f64, f64)> = (0..300)
        .map(|i| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let r = 1. + (s >> 33) as f64 / 2147483648. * 9.;
            let t = i as f64 / 300. * std::f64::consts::TAU;
            (r * t.cos(), r * t.sin())
        })
        .collect();
    let first = tri(&star, &[]);
    for i in 0..6000 {
        assert_eq!(tri(&star, &[]), first, "repeated {i} times");
    }
}
