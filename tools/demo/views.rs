mod poly;
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    let all = p.all();
    let same = |t: &poly2tri_rs::Point, u: &poly2tri_rs::Point| t.x.to_bits() == u.x.to_bits() && t.y.to_bits() == u.y.to_bits();
    let mut t = p.cdt().triangulate();
    let idx = t.triangle_list_indices();
    poly::check(&p, &poly::tris(&idx));
    for i in 0..idx.len() / 3 {
        let x = t.next().expect("iterator ends early");
        for k in 0..3 {
            assert!(same(&x.points[k], &all[idx[3 * i + k] as usize]), "iterator and index list differ");
        }
        assert_eq!(t.triangle_list_indices(), idx, "index list changed");
        assert_eq!(t.data().len(), all.len());
        assert_eq!(t.points().len(), all.len());
    }
    for _ in 0..3 {
        assert!(t.next().is_none(), "iterator goes on after its end");
    }
    for (a, b) in t.points().iter().zip(&all) {
        assert!(same(a, b), "point changed");
    }
    // advanced in other ways, from the middle
    let n = idx.len() / 3;
    let bits = |t: poly2tri_rs::Triangle| t.points.map(|p| (p.x.to_bits(), p.y.to_bits()));
    let list: Vec<_> = p.cdt().triangulate().map(bits).collect();
    for k in 0..=n {
        let from = || {
            let mut t = p.cdt().triangulate();
            for _ in 0..k {
                t.next();
            }
            t
        };
        let (lo, hi) = from().size_hint();
        assert!(lo <= n - k && hi.map_or(true, |h| h >= n - k), "size_hint");
        assert_eq!(from().count(), n - k, "count");
        assert!(from().last().map(bits) == list[k..].last().copied(), "last");
        for j in 0..=n - k {
            let mut t = from();
            assert!(t.nth(j).map(bits) == list.get(k + j).copied(), "nth");
            assert!(t.next().map(bits) == list.get(k + j + 1).copied(), "next after nth");
        }
        let skipped: Vec<_> = from().skip(1).step_by(2).map(bits).collect();
        let want: Vec<_> = list[k..].iter().skip(1).step_by(2).copied().collect();
        assert!(skipped == want, "skip and step_by");
    }
}
