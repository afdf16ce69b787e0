mod poly;
use poly2tri_rs::{Float, Point};
// a bowl seen from its lowest point, on a thread with the default stack: one legalization flips all of it
fn main() {
    for (n, k) in [(20_000, 1e3), (20_000, -1e3)] {
        let mut p = poly::Poly::default();
        for i in 0..n {
            let t = -1. + 2. * i as f64 / (n - 1) as f64;
            p.outer.push(Point::new((t * 1e3) as Float, (t * t * k) as Float));
        }
        let t = std::thread::spawn(move || (poly::tris(&p.cdt().triangulate().triangle_list_indices()), p)).join().unwrap();
        assert_eq!(t.0.len(), t.1.outer.len() - 2);
    }
}
