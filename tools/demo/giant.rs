mod poly;
use poly2tri_rs::{Float, Point};
// many points, on a thread with the default stack
fn main() {
    for n in [30_000, 70_000] {
        let mut p = poly::Poly::default();
        for i in 0..n / 2 {
            p.outer.push(Point::new(i as Float, i as Float));
            p.outer.push(Point::new(i as Float + 1., i as Float));
        }
        p.outer.push(Point::new((n / 2) as Float, (n / 2) as Float + 1.));
        p.outer.push(Point::new(-1., (n / 2) as Float + 1.));
        p.outer.push(Point::new(-1., 0.));
        let t = std::thread::spawn(move || (poly::tris(&p.cdt().triangulate().triangle_list_indices()), p)).join().unwrap();
        poly::check(&t.1, &t.0);
    }
}
