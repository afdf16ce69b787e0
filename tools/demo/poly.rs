// reading a polygon, triangulating it, and exact checks of the result
#![allow(dead_code)]
use poly2tri_rs::{Builder, Float, Point};
use std::collections::{HashMap, HashSet};

pub type T = [usize; 3];
#[derive(Clone, Default)]
pub struct Poly {
    pub outer: Vec<Point>,
    pub holes: Vec<Vec<Point>>,
    pub steiner: Vec<Point>,
}
pub fn parse(text: &str) -> Poly {
    let mut p = Poly::default();
    let mut mode = 0;
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if l == "HOLE" {
            mode = 1;
            p.holes.push(vec![]);
            continue;
        }
        if l == "STEINER" {
            mode = 2;
            continue;
        }
        let v: Vec<f64> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let q = Point::new(v[0] as Float, v[1] as Float);
        match mode {
            0 => p.outer.push(q),
            1 => p.holes.last_mut().unwrap().push(q),
            _ => p.steiner.push(q),
        }
    }
    p
}
impl Poly {
    pub fn all(&self) -> Vec<Point> {
        let mut v = self.outer.clone();
        v.extend(self.holes.iter().flatten().copied());
        v.extend(self.steiner.iter().copied());
        v
    }
    pub fn rings(&self) -> Vec<Vec<usize>> {
        let mut n = 0;
        let mut v = vec![];
        for r in std::iter::once(&self.outer).chain(&self.holes) {
            v.push((n..n + r.len()).collect());
            n += r.len();
        }
        v
    }
    pub fn segments(&self) -> HashSet<(usize, usize)> {
        let mut s = HashSet::new();
        for r in self.rings() {
            for i in 0..r.len() {
                let (a, b) = (r[i], r[(i + 1) % r.len()]);
                s.insert((a.min(b), a.max(b)));
            }
        }
        s
    }
    pub fn cdt(&self) -> poly2tri_rs::CDT<()> {
        Builder::new(self.outer.clone()).add_holes(self.holes.clone()).add_steiner_points(self.steiner.clone()).build()
    }
    /// inside the outline and outside of the holes (for points on no edge)
    pub fn domain(&self, q: Point) -> bool {
        let mut inside = false;
        for r in std::iter::once(&self.outer).chain(&self.holes) {
            for i in 0..r.len() {
                let (a, b) = (r[i], r[(i + 1) % r.len()]);
                if (a.y > q.y) != (b.y > q.y) {
                    let o = orient(a, b, q);
                    if (o > 0.) == (b.y > a.y) {
                        inside = !inside;
                    }
                }
            }
        }
        inside
    }
}
pub fn tris(idx: &[u32]) -> Vec<T> {
    idx.chunks(3).map(|c| [c[0] as usize, c[1] as usize, c[2] as usize]).collect()
}
fn c(p: Point) -> robust::Coord<f64> {
    robust::Coord { x: p.x as f64, y: p.y as f64 }
}
pub fn orient(a: Point, b: Point, d: Point) -> f64 {
    robust::orient2d(c(a), c(b), c(d))
}
pub fn incircle(a: Point, b: Point, d: Point, e: Point) -> f64 {
    robust::incircle(c(a), c(b), c(d), c(e))
}
/// tiling, segments, Delaunay, Steiner points
pub fn check(p: &Poly, t: &[T]) {
    let all = p.all();
    let seg = p.segments();
    let mut edges: HashMap<(usize, usize), usize> = HashMap::new();
    for (k, v) in t.iter().enumerate() {
        assert!(orient(all[v[0]], all[v[1]], all[v[2]]) > 0., "triangle {v:?} is not counter-clockwise");
        for i in 0..3 {
            assert!(edges.insert((v[i], v[(i + 1) % 3]), k).is_none(), "two triangles on one side of an edge");
        }
    }
    for (&(a, b), &k) in &edges {
        match edges.get(&(b, a)) {
            None => assert!(seg.contains(&(a.min(b), a.max(b))), "border edge {a}-{b} is no segment"),
            Some(&l) => {
                assert!(!seg.contains(&(a.min(b), a.max(b))), "segment {a}-{b} has triangles on both sides");
                let o = *t[l].iter().find(|&&x| x != a && x != b).unwrap();
                let v = t[k];
                assert!(incircle(all[v[0]], all[v[1]], all[v[2]], all[o]) <= 0., "edge {a}-{b} is not Delaunay");
            }
        }
    }
    for &(a, b) in &seg {
        assert!(edges.contains_key(&(a, b)) || edges.contains_key(&(b, a)), "segment {a}-{b} is missing");
    }
    let used: HashSet<usize> = t.iter().flatten().copied().collect();
    let first = all.len() - p.steiner.len();
    for i in 0..all.len() {
        assert_eq!(used.contains(&i), i < first || p.domain(all[i]), "use of point {i}");
    }
    let inner = (first..all.len()).filter(|i| used.contains(i)).count();
    assert_eq!(t.len(), first + 2 * inner + 2 * p.holes.len() - 2, "number of triangles");
}
