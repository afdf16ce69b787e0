//! Exact signs of orientation and in-circle determinants, independent of the
//! `robust` crate the library itself uses.  A floating-point filter with a
//! conservative bound decides the easy cases; the rest is done in integers of
//! unlimited size (coordinates are binary fractions, hence exact).
use std::cmp::Ordering;

pub type P = (f64, f64);

/// signed magnitude big integer, little endian u32 limbs
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    neg: bool,
    m: Vec<u32>,
}
fn trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}
fn cmp_m(a: &[u32], b: &[u32]) -> Ordering {
    a.len()
        .cmp(&b.len())
        .then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn add_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u64;
    for i in 0..n {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    trim(&mut r);
    r
}
fn sub_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        if s < 0 {
            s += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        r.push(s as u32);
    }
    assert!(br == 0);
    trim(&mut r);
    r
}
impl Big {
    pub fn zero() -> Big {
        Big { neg: false, m: vec![] }
    }
    /// v * 2^sh exactly
    pub fn from_u64_shl(v: u64, sh: u32, neg: bool) -> Big {
        let mut m = vec![0u32; (sh / 32) as usize];
        let x = (v as u128) << (sh % 32);
        m.push(x as u32);
        m.push((x >> 32) as u32);
        m.push((x >> 64) as u32);
        trim(&mut m);
        let neg = neg && !m.is_empty();
        Big { neg, m }
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big { neg: self.neg, m: add_m(&self.m, &o.m) };
        }
        match cmp_m(&self.m, &o.m) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big { neg: self.neg, m: sub_m(&self.m, &o.m) },
            Ordering::Less => Big { neg: o.neg, m: sub_m(&o.m, &self.m) },
        }
    }
    pub fn negate(&self) -> Big {
        Big { neg: !self.neg && !self.m.is_empty(), m: self.m.clone() }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.negate())
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.m.is_empty() || o.m.is_empty() {
            return Big::zero();
        }
        let mut r = vec![0u32; self.m.len() + o.m.len()];
        for (i, &a) in self.m.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.m.iter().enumerate() {
                let t = a as u64 * b as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.m.len()] = c as u32;
        }
        trim(&mut r);
        Big { neg: self.neg != o.neg, m: r }
    }
    pub fn sign(&self) -> i32 {
        if self.m.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
}

/// (mantissa, exponent) with x = m * 2^e exactly
fn decomp(x: f64) -> (u64, i32, bool) {
    assert!(x.is_finite());
    let b = x.to_bits();
    let neg = b >> 63 == 1;
    let e = ((b >> 52) & 0x7ff) as i32;
    let f = b & ((1 << 52) - 1);
    if e == 0 {
        (f, -1074, neg)
    } else {
        (f | 1 << 52, e - 1075, neg)
    }
}
/// all numbers multiplied by one common power of two so that they are integers
pub fn to_big(xs: &[f64]) -> Vec<Big> {
    let d: Vec<_> = xs.iter().map(|&x| decomp(x)).collect();
    let emin = d.iter().filter(|t| t.0 != 0).map(|t| t.1).min().unwrap_or(0);
    d.iter()
        .map(|&(m, e, n)| {
            if m == 0 {
                Big::zero()
            } else {
                Big::from_u64_shl(m, (e - emin) as u32, n)
            }
        })
        .collect()
}

fn orient_big(a: P, b: P, c: P) -> i32 {
    let v = to_big(&[a.0, a.1, b.0, b.1, c.0, c.1]);
    let acx = v[0].sub(&v[4]);
    let bcx = v[2].sub(&v[4]);
    let acy = v[1].sub(&v[5]);
    let bcy = v[3].sub(&v[5]);
    acx.mul(&bcy).sub(&acy.mul(&bcx)).sign()
}

const SAFE_LO: f64 = 1e-60;
const SAFE_HI: f64 = 1e60;
fn safe(x: f64) -> bool {
    let a = x.abs();
    a == 0.0 || (a > SAFE_LO && a < SAFE_HI)
}

/// +1: a,b,c counter-clockwise; -1 clockwise; 0 collinear. exact.
pub fn orient(a: P, b: P, c: P) -> i32 {
    let (acx, bcx, acy, bcy) = (a.0 - c.0, b.0 - c.0, a.1 - c.1, b.1 - c.1);
    if safe(acx) && safe(bcx) && safe(acy) && safe(bcy) {
        let l = acx * bcy;
        let r = acy * bcx;
        let det = l - r;
        let err = 1e-15 * (l.abs() + r.abs());
        if det > err {
            return 1;
        }
        if -det > err {
            return -1;
        }
    }
    orient_big(a, b, c)
}

fn incircle_big(a: P, b: P, c: P, d: P) -> i32 {
    let v = to_big(&[a.0, a.1, b.0, b.1, c.0, c.1, d.0, d.1]);
    let adx = v[0].sub(&v[6]);
    let ady = v[1].sub(&v[7]);
    let bdx = v[2].sub(&v[6]);
    let bdy = v[3].sub(&v[7]);
    let cdx = v[4].sub(&v[6]);
    let cdy = v[5].sub(&v[7]);
    let al = adx.mul(&adx).add(&ady.mul(&ady));
    let bl = bdx.mul(&bdx).add(&bdy.mul(&bdy));
    let cl = cdx.mul(&cdx).add(&cdy.mul(&cdy));
    let bc = bdx.mul(&cdy).sub(&cdx.mul(&bdy));
    let ca = cdx.mul(&ady).sub(&adx.mul(&cdy));
    let ab = adx.mul(&bdy).sub(&bdx.mul(&ady));
    al.mul(&bc).add(&bl.mul(&ca)).add(&cl.mul(&ab)).sign()
}

/// +1: d strictly inside the circle through a,b,c, which must be
/// counter-clockwise; 0 on it; -1 outside. exact.
pub fn incircle(a: P, b: P, c: P, d: P) -> i32 {
    let (adx, ady) = (a.0 - d.0, a.1 - d.1);
    let (bdx, bdy) = (b.0 - d.0, b.1 - d.1);
    let (cdx, cdy) = (c.0 - d.0, c.1 - d.1);
    if [adx, ady, bdx, bdy, cdx, cdy].iter().all(|&x| safe(x)) {
        let al = adx * adx + ady * ady;
        let bl = bdx * bdx + bdy * bdy;
        let cl = cdx * cdx + cdy * cdy;
        let (p, q) = (bdx * cdy, cdx * bdy);
        let (r, s) = (cdx * ady, adx * cdy);
        let (t, u) = (adx * bdy, bdx * ady);
        let det = al * (p - q) + bl * (r - s) + cl * (t - u);
        let perm = al * (p.abs() + q.abs()) + bl * (r.abs() + s.abs()) + cl * (t.abs() + u.abs());
        let err = 4e-15 * perm;
        if det > err {
            return 1;
        }
        if -det > err {
            return -1;
        }
    }
    incircle_big(a, b, c, d)
}

/// c known collinear with a,b: is it within the closed segment?
fn between(a: P, b: P, c: P) -> bool {
    a.0.min(b.0) <= c.0 && c.0 <= a.0.max(b.0) && a.1.min(b.1) <= c.1 && c.1 <= a.1.max(b.1)
}

/// c lies on the closed segment ab
pub fn on_segment(a: P, b: P, c: P) -> bool {
    if !between(a, b, c) {
        return false;
    }
    orient(a, b, c) == 0
}

/// the closed segments ab and cd share a point
pub fn seg_touch(a: P, b: P, c: P, d: P) -> bool {
    // bounding boxes
    if a.0.max(b.0) < c.0.min(d.0)
        || c.0.max(d.0) < a.0.min(b.0)
        || a.1.max(b.1) < c.1.min(d.1)
        || c.1.max(d.1) < a.1.min(b.1)
    {
        return false;
    }
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    (o1 == 0 && between(a, b, c))
        || (o2 == 0 && between(a, b, d))
        || (o3 == 0 && between(c, d, a))
        || (o4 == 0 && between(c, d, b))
}

/// winding-independent point in polygon; p must not lie on the boundary
pub fn in_polygon(poly: &[P], p: P) -> bool {
    let mut inside = false;
    let n = poly.len();
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if (a.1 > p.1) != (b.1 > p.1) {
            // upward ray crossing decided exactly
            let o = orient(a, b, p);
            if (b.1 > a.1 && o > 0) || (b.1 < a.1 && o < 0) {
                inside = !inside;
            }
        }
    }
    inside
}

/// twice the signed area's sign, exact
pub fn area_sign(poly: &[P]) -> i32 {
    // orientation at the lexicographically lowest vertex (y, then x): robust and exact
    let n = poly.len();
    let mut k = 0;
    for i in 1..n {
        let (a, b) = (poly[i], poly[k]);
        if a.1 < b.1 || (a.1 == b.1 && a.0 < b.0) {
            k = i;
        }
    }
    // lowest vertex of a simple polygon without duplicate points: the angle there may be
    // straight only if all neighbours are collinear on one horizontal line, then walk on.
    let prev = poly[(k + n - 1) % n];
    let next = poly[(k + 1) % n];
    orient(prev, poly[k], next)
}
