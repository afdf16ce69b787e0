//! A test case: polygon, holes, Steiner points.  Coordinates are kept as f64
//! but are always exactly representable in the library's Float.
use crate::exact::{self, P};
use poly2tri_rs::{Float, Point};
use std::fmt::Write as _;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub family: String,
    pub outer: Vec<P>,
    pub holes: Vec<Vec<P>>,
    pub steiner: Vec<P>,
}

/// Numeric range of the supported domain.  Products of four differences of
/// coordinates neither overflow nor underflow, and the bounding box is wide
/// enough (1024 units in the last place) for points 30% outside of it to be
/// distinguishable from its border.
pub fn representable(all: &[P]) -> bool {
    #[cfg(feature = "f32")]
    let (small, large, eps) = (1e-30, 1e9, 2f64.powi(-23));
    #[cfg(not(feature = "f32"))]
    let (small, large, eps) = (1e-60, 1e60, 2f64.powi(-52));
    let ok = |sel: fn(&P) -> f64| {
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for p in all {
            let v = sel(p);
            if v != 0. && !(small..=large).contains(&v.abs()) {
                return false;
            }
            lo = lo.min(v);
            hi = hi.max(v);
        }
        hi - lo >= 1024. * eps * hi.abs().max(lo.abs())
    };
    ok(|p| p.0) && ok(|p| p.1)
}
pub fn rnd(p: P) -> P {
    ((p.0 as Float) as f64, (p.1 as Float) as f64)
}
pub fn pt(p: P) -> Point {
    Point::new(p.0 as Float, p.1 as Float)
}
pub fn pts(v: &[P]) -> Vec<Point> {
    v.iter().map(|&p| pt(p)).collect()
}
pub fn xy(p: &Point) -> P {
    #[allow(clippy::unnecessary_cast)]
    (p.x as f64, p.y as f64)
}

impl Case {
    /// all points, in the order outline, holes, Steiner points
    pub fn all(&self) -> Vec<P> {
        let mut v = self.outer.clone();
        for h in &self.holes {
            v.extend_from_slice(h);
        }
        v.extend_from_slice(&self.steiner);
        v
    }
    pub fn n(&self) -> usize {
        self.outer.len() + self.steiner.len() + self.holes.iter().map(|h| h.len()).sum::<usize>()
    }
    pub fn map(&mut self, mut f: impl FnMut(P) -> P) {
        for p in self
            .outer
            .iter_mut()
            .chain(self.holes.iter_mut().flatten())
            .chain(self.steiner.iter_mut())
        {
            *p = f(*p);
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "# family {}", self.family);
        for p in &self.outer {
            let _ = writeln!(s, "{:?} {:?}", p.0, p.1);
        }
        for h in &self.holes {
            s.push_str("HOLE\n");
            for p in h {
                let _ = writeln!(s, "{:?} {:?}", p.0, p.1);
            }
        }
        if !self.steiner.is_empty() {
            s.push_str("STEINER\n");
            for p in &self.steiner {
                let _ = writeln!(s, "{:?} {:?}", p.0, p.1);
            }
        }
        s
    }
    pub fn from_text(t: &str) -> Case {
        let mut c = Case::default();
        let mut mode = 0;
        for l in t.lines() {
            let l = l.trim();
            if let Some(f) = l.strip_prefix("# family ") {
                c.family = f.to_string();
                continue;
            }
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if l == "HOLE" {
                mode = 1;
                c.holes.push(vec![]);
                continue;
            }
            if l == "STEINER" {
                mode = 2;
                continue;
            }
            let mut it = l.split_whitespace();
            let p = (
                it.next().unwrap().parse().unwrap(),
                it.next().unwrap().parse().unwrap(),
            );
            match mode {
                0 => c.outer.push(p),
                1 => c.holes.last_mut().unwrap().push(p),
                _ => c.steiner.push(p),
            }
        }
        c
    }

    /// Some(reason) if this is outside the input domain the library supports:
    /// finite, pairwise distinct points; simple outline; simple holes strictly
    /// inside the outline, disjoint and not nested; no free point on an edge.
    pub fn invalid(&self) -> Option<&'static str> {
        let all = self.all();
        if self.outer.len() < 3 || self.holes.iter().any(|h| h.len() < 3) {
            return Some("short polyline");
        }
        for p in &all {
            if !(p.0.is_finite() && p.1.is_finite()) {
                return Some("not finite");
            }
        }
        if !representable(&all) {
            return Some("out of range");
        }
        let mut s = all.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if s.windows(2).any(|w| w[0] == w[1]) {
            return Some("duplicate point");
        }
        // segments: (a, b, ring, index)
        struct S {
            a: P,
            b: P,
            ring: usize,
            k: usize,
            n: usize,
        }
        let mut segs = vec![];
        for (r, ring) in std::iter::once(&self.outer).chain(self.holes.iter()).enumerate() {
            let n = ring.len();
            for k in 0..n {
                segs.push(S { a: ring[k], b: ring[(k + 1) % n], ring: r, k, n });
            }
        }
        let mut ord: Vec<usize> = (0..segs.len()).collect();
        let xmin = |s: &S| s.a.0.min(s.b.0);
        let xmax = |s: &S| s.a.0.max(s.b.0);
        ord.sort_by(|&i, &j| xmin(&segs[i]).partial_cmp(&xmin(&segs[j])).unwrap());
        let mut st: Vec<P> = self.steiner.clone();
        st.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut sp = 0;
        let mut active: Vec<usize> = vec![];
        let mut it = ord.iter().peekable();
        loop {
            // process in order of x: segments before points at equal x
            let next_seg_x = it.peek().map(|&&i| xmin(&segs[i]));
            let next_pt_x = st.get(sp).map(|p| p.0);
            match (next_seg_x, next_pt_x) {
                (None, None) => break,
                (Some(sx), px) if px.map_or(true, |px| sx <= px) => {
                    let i = *it.next().unwrap();
                    let s = &segs[i];
                    active.retain(|&j| xmax(&segs[j]) >= sx);
                    for &j in &active {
                        let t = &segs[j];
                        if s.ring == t.ring {
                            // adjacent segments share exactly one end
                            let n = s.n;
                            let adj1 = (s.k + 1) % n == t.k;
                            let adj2 = (t.k + 1) % n == s.k;
                            if adj1 || adj2 {
                                let (c, u, v) = if adj1 { (s.b, s.a, t.b) } else { (t.b, t.a, s.b) };
                                // overlap only if folded back onto each other
                                if exact::orient(u, c, v) == 0 {
                                    let dot_neg = fold(u, c, v);
                                    if dot_neg {
                                        return Some("folded edge");
                                    }
                                }
                                continue;
                            }
                        }
                        if exact::seg_touch(s.a, s.b, t.a, t.b) {
                            return Some("edges touch");
                        }
                    }
                    active.push(i);
                }
                (_, Some(px)) => {
                    let p = st[sp];
                    sp += 1;
                    for &j in &active {
                        if xmax(&segs[j]) >= px && exact::on_segment(segs[j].a, segs[j].b, p) {
                            return Some("free point on edge");
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
        for (i, h) in self.holes.iter().enumerate() {
            if !exact::in_polygon(&self.outer, h[0]) {
                return Some("hole outside");
            }
            for (j, g) in self.holes.iter().enumerate() {
                if i != j && exact::in_polygon(g, h[0]) {
                    return Some("nested holes");
                }
            }
        }
        None
    }

    /// point strictly inside the outline and outside every hole
    pub fn in_domain(&self, p: P) -> bool {
        exact::in_polygon(&self.outer, p) && !self.holes.iter().any(|h| exact::in_polygon(h, p))
    }
}

/// u, c, v collinear: do cu and cv point the same way?
fn fold(u: P, c: P, v: P) -> bool {
    let s = |a: f64, b: f64| (a > b) as i32 - ((a < b) as i32);
    (s(u.0, c.0), s(u.1, c.1)) == (s(v.0, c.0), s(v.1, c.1))
}
