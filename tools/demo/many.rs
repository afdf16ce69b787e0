// more points than 16 bits can number: do the two views of the triangles agree?
use poly2tri_rs::{Builder, Point};
fn main() {
    let mut s = 7u64;
    let mut rnd = || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (s >> 33) as f64 / 2147483648. * 1000.
    };
    let free: Vec<Point> = (0..70_000).map(|_| Point::new(rnd() as _, rnd() as _)).collect();
    let sq = [(-1., -1.), (1001., -1.5), (1002., 1001.), (-1.5, 1002.)].map(|(x, y)| Point::new(x, y));
    let t = Builder::new(sq.to_vec()).add_steiner_points(free.clone()).build().triangulate();
    let all: Vec<Point> = sq.iter().copied().chain(free).collect();
    let idx = t.triangle_list_indices();
    let mut n = 0;
    for (i, tri) in t.enumerate() {
        for k in 0..3 {
            let p = all[idx[3 * i + k] as usize];
            assert!(tri.points[k].x == p.x && tri.points[k].y == p.y, "triangle {i}");
        }
        n += 1;
    }
    assert_eq!(3 * n, idx.len());
    assert_eq!(n, 2 * all.len() - 2 - 4);
}
