mod poly;
use poly2tri_rs::Point;
use std::collections::BTreeSet;
// other descriptions of the same input give the same triangles
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    let t = poly::tris(&p.cdt().triangulate().triangle_list_indices());
    poly::check(&p, &t);
    let maps: [fn(Point) -> Point; 6] = [
        |p| p,
        |p| Point::new(-p.x, p.y),
        |p| Point::new(p.x, -p.y),
        |p| Point::new(p.y, p.x),
        |p| Point::new(-p.y, p.x),
        |p| Point::new(p.x * 64., p.y * 64.),
    ];
    let set = |all: &[Point], t: &[poly::T]| -> BTreeSet<Vec<(u64, u64)>> {
        t.iter()
            .map(|t| {
                let mut v: Vec<_> = t.iter().map(|&i| ((all[i].x as f64 + 0.).to_bits(), (all[i].y as f64 + 0.).to_bits())).collect();
                v.sort();
                v
            })
            .collect()
    };
    let want = set(&p.all(), &t);
    for f in maps {
        for turn in 0..p.outer.len() * 2 {
            let mut q = p.clone();
            let k = turn % q.outer.len();
            q.outer.rotate_left(k);
            if turn >= p.outer.len() {
                q.outer.reverse();
                q.holes.reverse();
                q.steiner.reverse();
                q.holes.iter_mut().for_each(|h| h.reverse());
            }
            let orig = q.all();
            let m = |v: &[Point]| v.iter().map(|&x| f(x)).collect::<Vec<_>>();
            let g = poly::Poly { outer: m(&q.outer), holes: q.holes.iter().map(|h| m(h)).collect(), steiner: m(&q.steiner) };
            let u = poly::tris(&g.cdt().triangulate().triangle_list_indices());
            poly::check(&g, &u);
            assert_eq!(set(&orig, &u), want, "another triangulation");
        }
    }
}
