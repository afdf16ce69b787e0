mod poly;
use poly2tri_rs::{Builder, Observer, Point, Sweeper, TriangleId};
// an id made of an index names the triangle of that index or none
struct Ids;
impl Observer for Ids {
    fn finalized(&mut self, c: &Sweeper) {
        let n = c.triangles.len();
        for k in 0..n {
            assert_eq!(TriangleId::from_index(k).as_usize(), k);
            assert!(TriangleId::from_index(k).try_get(c.triangles).is_some());
            for far in [k + n, k + (n.max(1 << 16)), k + (1 << 32), k + (1 << 48), k + (1 << 63)] {
                assert!(TriangleId::from_index(far).try_get(c.triangles).is_none(), "there is a triangle {far} of {n}");
            }
        }
        assert!(TriangleId::INVALID.try_get(c.triangles).is_none());
    }
}
fn main() {
    let _ = poly::parse("0 0\n1 0\n0 1\n");
    let p: Vec<Point> = [(0., 0.), (4., 1.), (5., 6.), (2., 3.), (-1., 5.)].map(|(x, y)| Point::new(x, y)).to_vec();
    Builder::new(p).build().triangulate_with_observer(&mut Ids);
}
