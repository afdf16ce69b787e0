mod poly;
use poly2tri_rs::{Builder, Observer, Point};
struct Quiet;
impl Observer for Quiet {}
struct Big([u64; 100]);
impl Observer for Big {}
// the same input again, from clones, with an observer, after and beside others
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    let one = || p.cdt().triangulate().triangle_list_indices();
    let first = one();
    poly::check(&p, &poly::tris(&first));
    for _ in 0..50 {
        assert_eq!(one(), first, "repeated");
        assert_eq!(p.cdt().clone().triangulate_with_observer(&mut Quiet).triangle_list_indices(), first, "observed");
        assert_eq!(p.cdt().triangulate_with_observer(&mut Big([0; 100])).triangle_list_indices(), first, "observed");
    }
    // others in between
    let mut s = 1u64;
    let mut rnd = || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (s >> 33) as f64 / 4294967296. * 2.
    };
    let mut total = 0usize;
    while total < 70_000 {
        let n = 200;
        let pts: Vec<Point> = (0..n).map(|_| Point::new((rnd() * 100.) as _, (rnd() * 100.) as _)).collect();
        let sq = [(-1., -1.), (101., -1.5), (102., 101.), (-1.5, 102.)].map(|(x, y)| Point::new(x, y)).to_vec();
        total += n + 3;
        let b = Builder::new(sq).add_steiner_points(pts).build();
        let t = b.clone().triangulate().triangle_list_indices();
        assert_eq!(b.triangulate().triangle_list_indices(), t, "another input repeated");
        assert_eq!(one(), first, "repeated after others");
        total += p.all().len();
    }
    std::thread::scope(|sc| {
        for _ in 0..6 {
            sc.spawn(|| {
                for _ in 0..300 {
                    assert_eq!(one(), first, "beside other threads");
                }
            });
        }
    });
}
