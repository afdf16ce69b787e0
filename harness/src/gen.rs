//! Generators of valid inputs.
use crate::case::{rnd, Case};
use crate::exact::{self, P};
use crate::rng::Rng;
use std::f64::consts::PI;

fn star(r: &mut Rng, n: usize, c: P, rad: f64, spike: f64) -> Vec<P> {
    let mut a: Vec<f64> = (0..n).map(|_| r.fr(0., 2. * PI)).collect();
    a.sort_by(|x, y| x.partial_cmp(y).unwrap());
    a.iter()
        .map(|&t| {
            let q = rad * (1. - spike * r.f());
            (c.0 + q * t.cos(), c.1 + q * t.sin())
        })
        .collect()
}

fn regular(n: usize, c: P, rad: f64, phase: f64) -> Vec<P> {
    (0..n)
        .map(|i| {
            let t = phase + 2. * PI * i as f64 / n as f64;
            (c.0 + rad * t.cos(), c.1 + rad * t.sin())
        })
        .collect()
}

/// integer points exactly on the circle of radius 5*13*17*29 = 32045
fn lattice_circle(r: &mut Rng, n: usize) -> Vec<P> {
    static V: std::sync::OnceLock<Vec<P>> = std::sync::OnceLock::new();
    let v = V.get_or_init(|| {
        let rr: i64 = 32045;
        let mut v = vec![];
        for x in -rr..=rr {
            let y2 = rr * rr - x * x;
            let y = (y2 as f64).sqrt().round() as i64;
            if y * y == y2 {
                v.push((x as f64, y as f64));
                if y != 0 {
                    v.push((x as f64, -y as f64));
                }
            }
        }
        v.sort_by(|a, b| a.1.atan2(a.0).partial_cmp(&b.1.atan2(b.0)).unwrap());
        v
    });
    let mut idx: Vec<usize> = (0..v.len()).collect();
    r.shuffle(&mut idx);
    idx.truncate(n.min(v.len()));
    idx.sort();
    idx.iter().map(|&i| v[i]).collect()
}

/// random points untangled by 2-opt
fn two_opt(r: &mut Rng, n: usize, f: impl Fn(&mut Rng) -> P) -> Vec<P> {
    let mut v: Vec<P> = (0..n).map(|_| f(r)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    r.shuffle(&mut v);
    let n = v.len();
    for _ in 0..400 {
        let mut changed = false;
        for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                if exact::seg_touch(v[i], v[i + 1], v[j], v[(j + 1) % n]) {
                    v[i + 1..=j].reverse();
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    v
}

/// midpoint displacement of a simple polygon
fn fractal(r: &mut Rng, n: usize, amp: f64) -> Vec<P> {
    let mut v = regular(3 + r.below(4) as usize, (0., 0.), 100., r.f() * 6.);
    let mut tries = 0;
    while v.len() < n && tries < 4 * n {
        tries += 1;
        let k = r.below(v.len() as u64) as usize;
        let a = v[k];
        let b = v[(k + 1) % v.len()];
        let t = r.fr(0.2, 0.8);
        let h = r.fr(-amp, amp);
        let m = (
            a.0 + (b.0 - a.0) * t - (b.1 - a.1) * h,
            a.1 + (b.1 - a.1) * t + (b.0 - a.0) * h,
        );
        let l = v.len();
        let ok = m != a
            && m != b
            && (0..l).all(|j| {
                let (c, d) = (v[j], v[(j + 1) % l]);
                if j == k {
                    return true;
                }
                let prev = (j + 1) % l == k;
                let next = (k + 1) % l == j;
                if prev {
                    return !exact::seg_touch(m, b, c, d) && !exact::on_segment(c, d, m) && !exact::on_segment(a, m, c);
                }
                if next {
                    return !exact::seg_touch(a, m, c, d) && !exact::on_segment(c, d, m) && !exact::on_segment(b, m, d);
                }
                !exact::seg_touch(a, m, c, d) && !exact::seg_touch(m, b, c, d)
            });
        if ok {
            v.insert(k + 1, m);
        }
    }
    v
}

/// outline (and holes) of a random set of grid cells
fn polyomino(r: &mut Rng, w: usize, h: usize, fill: f64, allow_holes: bool) -> Option<(Vec<Vec<P>>, Vec<Vec<bool>>)> {
    let mut g = vec![vec![false; h + 2]; w + 2];
    let mut cells = vec![(1 + r.below(w as u64) as usize, 1 + r.below(h as u64) as usize)];
    g[cells[0].0][cells[0].1] = true;
    let target = ((w * h) as f64 * fill) as usize + 1;
    for _ in 0..target * 20 {
        if cells.len() >= target {
            break;
        }
        let c = *r.pick(&cells);
        let d = *r.pick(&[(1i32, 0i32), (-1, 0), (0, 1), (0, -1)]);
        let x = (c.0 as i32 + d.0) as usize;
        let y = (c.1 as i32 + d.1) as usize;
        if x < 1 || y < 1 || x > w || y > h || g[x][y] {
            continue;
        }
        g[x][y] = true;
        // no two cells touching only at a corner
        let pinch = |g: &Vec<Vec<bool>>, x: usize, y: usize| {
            // the 4 cells around lattice corner (x,y): (x-1,y-1),(x,y-1),(x-1,y),(x,y)
            let (a, b, c, d) = (g[x - 1][y - 1], g[x][y - 1], g[x - 1][y], g[x][y]);
            (a && d && !b && !c) || (b && c && !a && !d)
        };
        let bad = [(x, y), (x + 1, y), (x, y + 1), (x + 1, y + 1)]
            .iter()
            .any(|&(i, j)| pinch(&g, i, j));
        if bad {
            g[x][y] = false;
            continue;
        }
        cells.push((x, y));
    }
    // directed boundary edges, interior on the left
    use std::collections::HashMap;
    let mut next: HashMap<(usize, usize), (usize, usize)> = HashMap::new();
    for x in 1..=w {
        for y in 1..=h {
            if !g[x][y] {
                continue;
            }
            if !g[x][y - 1] {
                next.insert((x, y), (x + 1, y));
            }
            if !g[x + 1][y] {
                next.insert((x + 1, y), (x + 1, y + 1));
            }
            if !g[x][y + 1] {
                next.insert((x + 1, y + 1), (x, y + 1));
            }
            if !g[x - 1][y] {
                next.insert((x, y + 1), (x, y));
            }
        }
    }
    let mut rings = vec![];
    let mut keys: Vec<_> = next.keys().copied().collect();
    keys.sort();
    for k in keys {
        if !next.contains_key(&k) {
            continue;
        }
        let mut ring = vec![];
        let mut p = k;
        while let Some(q) = next.remove(&p) {
            ring.push((p.0 as f64, p.1 as f64));
            p = q;
        }
        rings.push(ring);
    }
    if rings.len() > 1 && !allow_holes {
        return None;
    }
    // outer ring: the counter-clockwise one
    rings.sort_by_key(|v| -exact::area_sign(v));
    Some((rings, g))
}

fn drop_collinear(r: &mut Rng, v: &[P], keep: f64) -> Vec<P> {
    let n = v.len();
    (0..n)
        .filter(|&i| exact::orient(v[(i + n - 1) % n], v[i], v[(i + 1) % n]) != 0 || r.f() < keep)
        .map(|i| v[i])
        .collect()
}

pub fn bbox(v: &[P]) -> (P, P) {
    let mut lo = (f64::INFINITY, f64::INFINITY);
    let mut hi = (-f64::INFINITY, -f64::INFINITY);
    for p in v {
        lo = (lo.0.min(p.0), lo.1.min(p.1));
        hi = (hi.0.max(p.0), hi.1.max(p.1));
    }
    (lo, hi)
}

fn inner_point(r: &mut Rng, c: &Case) -> Option<P> {
    let (lo, hi) = bbox(&c.outer);
    for _ in 0..20 {
        let p = (r.fr(lo.0, hi.0), r.fr(lo.1, hi.1));
        if c.in_domain(p) {
            return Some(p);
        }
    }
    None
}

fn edges(c: &Case) -> Vec<(P, P)> {
    let mut v = vec![];
    for ring in std::iter::once(&c.outer).chain(c.holes.iter()) {
        for k in 0..ring.len() {
            v.push((ring[k], ring[(k + 1) % ring.len()]));
        }
    }
    v
}

fn add_holes(r: &mut Rng, c: &mut Case, k: usize) {
    for _ in 0..k {
        let Some(p) = inner_point(r, c) else { return };
        // radius: distance to nearest edge
        let mut d = f64::INFINITY;
        for (a, b) in edges(c) {
            d = d.min(seg_dist(p, a, b));
        }
        let rad = d * r.fr(0.3, 0.95);
        if !(rad > 0.) {
            continue;
        }
        let n = r.size(3, 14);
        let mut h = match r.below(4) {
            0 => regular(n, p, rad, r.f() * 6.),
            1 => {
                // thin sliver
                let t = r.fr(0., PI);
                let (u, v) = ((t.cos() * rad, t.sin() * rad), (-t.sin() * rad * 0.02, t.cos() * rad * 0.02));
                vec![
                    (p.0 - u.0, p.1 - u.1),
                    (p.0 + v.0, p.1 + v.1),
                    (p.0 + u.0, p.1 + u.1),
                    (p.0 - v.0, p.1 - v.1),
                ]
            }
            2 => {
                let s = rad * 0.7;
                vec![
                    (p.0 - s, p.1 - s),
                    (p.0 + s, p.1 - s),
                    (p.0 + s, p.1 + s),
                    (p.0 - s, p.1 + s),
                ]
            }
            _ => star(r, n, p, rad, 0.8),
        };
        if r.chance(1, 2) {
            h.reverse();
        }
        let mut c2 = c.clone();
        c2.holes.push(h);
        c2.steiner.clear();
        if c2.invalid().is_none() {
            c.holes = c2.holes;
        }
    }
}

pub fn seg_dist(p: P, a: P, b: P) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l = dx * dx + dy * dy;
    let t = if l == 0. { 0. } else { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l).clamp(0., 1.) };
    let (ex, ey) = (a.0 + t * dx - p.0, a.1 + t * dy - p.1);
    (ex * ex + ey * ey).sqrt()
}

/// where free points may go
#[derive(Clone, Copy, PartialEq)]
pub enum Where {
    Inside,
    InsideAndHoles,
    Anywhere,
}

fn add_steiner(r: &mut Rng, c: &mut Case, k: usize, wh: Where) {
    let (lo, hi) = bbox(&c.outer);
    let (w, h) = (hi.0 - lo.0, hi.1 - lo.1);
    let es = edges(c);
    let mode = r.below(7);
    let mut out: Vec<P> = vec![];
    let m = 0.5;
    for i in 0..k {
        let p = match mode {
            0 | 1 => {
                let f = if wh == Where::Anywhere { m } else { 0. };
                (r.fr(lo.0 - w * f, hi.0 + w * f), r.fr(lo.1 - h * f, hi.1 + h * f))
            }
            2 => {
                // lattice
                let g = 1 + (k as f64).sqrt() as i64;
                (
                    lo.0 + w * (r.range(0, g) as f64 + 0.5) / (g as f64 + 1.),
                    lo.1 + h * (r.range(0, g) as f64 + 0.5) / (g as f64 + 1.),
                )
            }
            3 => {
                // close to an edge
                let (a, b) = *r.pick(&es);
                let t = r.fr(0.05, 0.95);
                let d = 10f64.powf(r.fr(-9., -1.)) * if r.chance(1, 2) { 1. } else { -1. };
                (
                    a.0 + (b.0 - a.0) * t - (b.1 - a.1) * d,
                    a.1 + (b.1 - a.1) * t + (b.0 - a.0) * d,
                )
            }
            4 => {
                // close to a vertex
                let (a, _) = *r.pick(&es);
                let d = 10f64.powf(r.fr(-6., -1.));
                let t = r.fr(0., 2. * PI);
                (a.0 + w * d * t.cos(), a.1 + h * d * t.sin())
            }
            5 => {
                // on a line
                let t = (i as f64 + 0.5) / k as f64;
                (lo.0 + w * t, lo.1 + h * 0.37)
            }
            _ => {
                // ring
                let t = 2. * PI * i as f64 / k as f64;
                ((lo.0 + hi.0) / 2. + w * 0.3 * t.cos(), (lo.1 + hi.1) / 2. + w * 0.3 * t.sin())
            }
        };
        let p = rnd(p);
        match wh {
            Where::Anywhere => {}
            Where::Inside => {
                if !c.in_domain(p) {
                    continue;
                }
            }
            Where::InsideAndHoles => {
                if !exact::in_polygon(&c.outer, p) {
                    continue;
                }
            }
        }
        out.push(p);
    }
    // drop duplicates and points on edges
    let mut seen: std::collections::HashSet<(u64, u64)> =
        c.all().iter().map(|p| ((p.0 + 0.).to_bits(), (p.1 + 0.).to_bits())).collect();
    for p in out {
        if es.iter().any(|&(a, b)| exact::on_segment(a, b, p)) {
            continue;
        }
        if seen.insert(((p.0 + 0.).to_bits(), (p.1 + 0.).to_bits())) {
            c.steiner.push(p);
        }
    }
}

pub const FAMILIES: &[&str] = &[
    "star", "starint", "regular", "lattice-circle", "two-opt", "two-opt-int", "fractal", "polyomino",
    "polyomino-holes", "comb", "spiral", "xmono", "ymono", "frame", "needle", "grid-jitter", "bowl",
    "fan", "nested-v", "stairs", "file", "windmill", "zipper", "plate", "plate",
];

#[derive(Clone, Copy)]
pub struct Cfg {
    pub max_n: usize,
    pub wh: Where,
    pub steiner: bool,
    pub transform: bool,
}

/// one attempt
fn attempt(r: &mut Rng, fam: &str, cfg: &Cfg) -> Option<Case> {
    let mut c = Case { family: fam.into(), ..Default::default() };
    let n = r.size(3, cfg.max_n);
    match fam {
        "star" => {
            let sp = *r.pick(&[0.0, 0.3, 0.7, 0.95]);
            c.outer = star(r, n, (0., 0.), 100., sp);
        }
        "starint" => {
            let sp = *r.pick(&[0.3, 0.7, 0.95]);
            let rad = *r.pick(&[8., 30., 200.]);
            c.outer = star(r, n.min(40), (0., 0.), rad, sp).iter().map(|p| (p.0.round(), p.1.round())).collect();
            c.outer.dedup();
        }
        "regular" => c.outer = regular(n, (0., 0.), 100., if r.chance(1, 2) { 0. } else { r.f() }),
        "lattice-circle" => c.outer = lattice_circle(r, n),
        "two-opt" => c.outer = two_opt(r, n.min(60), |r| (r.fr(0., 800.), r.fr(0., 800.))),
        "two-opt-int" => {
            let m = *r.pick(&[4, 8, 20, 100]);
            c.outer = two_opt(r, n.min(50), |r| (r.range(0, m) as f64, r.range(0, m) as f64))
        }
        "fractal" => {
            let amp = r.fr(0.05, 0.6);
            c.outer = fractal(r, n.min(200), amp)
        }
        "polyomino" | "polyomino-holes" => {
            let s = 2 + (n as f64).sqrt() as usize;
            let w = r.usize(1, s.min(14));
            let h = r.usize(1, s.min(14));
            let fill = r.fr(0.2, 0.95);
            let (rings, g) = polyomino(r, w, h, fill, fam != "polyomino")?;
            let keep = *r.pick(&[0., 0.5, 1.]);
            let mut it = rings.iter();
            c.outer = drop_collinear(r, it.next()?, keep);
            for h in it {
                c.holes.push(drop_collinear(r, h, keep));
            }
            if cfg.steiner && r.chance(1, 2) {
                // interior lattice points: massive cocircularity
                let half = r.chance(1, 2);
                for x in 1..=w {
                    for y in 1..=h {
                        if half && g[x][y] {
                            c.steiner.push((x as f64 + 0.5, y as f64 + 0.5));
                        }
                        if g[x][y] && g[x - 1][y] && g[x][y - 1] && g[x - 1][y - 1] {
                            c.steiner.push((x as f64, y as f64));
                        }
                    }
                }
            }
            if r.chance(1, 3) {
                // exact rotation by an integer matrix
                let (a, b) = (r.range(1, 9) as f64, r.range(-9, 9) as f64);
                c.map(|p| (a * p.0 - b * p.1, b * p.0 + a * p.1));
            }
        }
        "comb" => {
            let k = (n / 4).max(1);
            let deep = r.fr(1., 300.);
            let jit = *r.pick(&[0., 1.]);
            let base = -5.;
            let mut v = vec![];
            for i in 0..k {
                let x = i as f64 * 4.;
                v.push((x, deep + jit * r.f()));
                v.push((x + 2. + 0.5 * jit * r.f(), r.f() * jit));
            }
            v.push((k as f64 * 4., deep));
            v.push((k as f64 * 4. + 2., base));
            v.push((-2., base));
            c.outer = v;
        }
        "spiral" => {
            let k = (n / 2).max(4);
            let turns = r.fr(0.7, 4.);
            let mut a = vec![];
            let mut b = vec![];
            for i in 0..k {
                let t = i as f64 / k as f64 * turns * 2. * PI;
                let rad = 10. + 10. * t / (2. * PI) * 2.;
                a.push((rad * t.cos(), rad * t.sin()));
                let q = rad + 8.;
                b.push((q * t.cos(), q * t.sin()));
            }
            b.reverse();
            a.extend(b);
            c.outer = a;
        }
        "xmono" | "ymono" => {
            let k = n.max(4);
            let mut up = vec![];
            let mut lo = vec![];
            let int = r.chance(1, 2);
            for i in 0..k {
                let y = r.fr(-50., 50.);
                let y = if int { y.round() } else { y };
                let x = i as f64 + if int { 0. } else { 0.4 * r.f() };
                if y >= 0. {
                    up.push((x, y + 1.));
                } else {
                    lo.push((x, y - 1.));
                }
            }
            up.reverse();
            lo.extend(up);
            c.outer = lo;
            if fam == "ymono" {
                c.map(|p| (p.1, p.0));
            }
        }
        "frame" => {
            // rectangle with many points on its sides
            let k = (n / 4).max(1);
            let (w, h) = (r.range(1, 50) as f64 * 4., r.range(1, 50) as f64 * 4.);
            let mut v = vec![];
            for s in 0..4 {
                let m = r.usize(1, k);
                for i in 0..m {
                    let t = if r.chance(3, 4) { i as f64 / m as f64 } else { (i as f64 + 0.3 * r.f()) / m as f64 };
                    v.push(match s {
                        0 => (w * t, 0.),
                        1 => (w, h * t),
                        2 => (w - w * t, h),
                        _ => (0., h - h * t),
                    });
                }
            }
            v.dedup();
            c.outer = v;
        }
        "needle" => {
            // long thin polygon
            let th = 10f64.powf(r.fr(-8., -1.));
            let k = (n / 2).max(2);
            let mut a: Vec<P> = (0..k).map(|i| (i as f64 + r.f() * 0.4, th * r.f())).collect();
            let mut b: Vec<P> = (0..k).map(|i| (i as f64 + r.f() * 0.4, -th * (0.01 + r.f()))).collect();
            b.reverse();
            a.extend(b);
            let t = r.fr(0., 2. * PI);
            c.outer = a;
            if r.chance(2, 3) {
                c.map(|p| (p.0 * t.cos() - p.1 * t.sin(), p.0 * t.sin() + p.1 * t.cos()));
            }
        }
        "grid-jitter" => {
            let s = 2 + (n as f64).sqrt() as usize;
            let (rings, _) = polyomino(r, s.min(10), s.min(10), 0.6, true)?;
            let eps = 10f64.powf(r.fr(-15., -2.));
            let mut it = rings.iter();
            c.outer = drop_collinear(r, it.next()?, 0.7);
            for h in it {
                c.holes.push(drop_collinear(r, h, 0.7));
            }
            for p in c.outer.iter_mut().chain(c.holes.iter_mut().flatten()) {
                p.0 += eps * r.fr(-1., 1.);
                p.1 += eps * r.fr(-1., 1.);
            }
        }
        "bowl" => {
            // deep basin seen from above
            let k = n.max(4);
            let e = r.fr(0.2, 4.);
            let mut v: Vec<P> = (0..k)
                .map(|i| {
                    let t = -1. + 2. * i as f64 / (k - 1) as f64;
                    (t * 100., 100. * t.abs().powf(e) + r.f() * 0.01)
                })
                .collect();
            if r.chance(1, 2) {
                // thick bowl
                let o: Vec<P> = v.iter().rev().map(|p| (p.0 * 1.1, p.1 - 30.)).collect();
                v.extend(o);
            } else {
                v.push((120., -40.));
                v.push((-120., -41.));
            }
            c.outer = v;
        }
        "fan" => {
            // many points on an arc crossed by one long edge
            let k = n.max(3);
            let mut v: Vec<P> = (0..k).map(|i| (i as f64 * 2. + r.f(), r.fr(0., 1.))).collect();
            v.push((k as f64 * 2. + 5., 30. + r.f()));
            v.push((-5., r.fr(1.5, 30.)));
            c.outer = v;
        }
        "nested-v" => {
            let k = (n / 2).max(2);
            let mut l: Vec<P> = vec![];
            let mut q: Vec<P> = vec![];
            for i in 0..k {
                let y = i as f64 + 0.3 * r.f();
                l.push((-(i as f64) * 2. - r.f(), y));
                q.push((i as f64 * 2. + 1. + r.f(), y + 0.1));
            }
            l.reverse();
            l.extend(q);
            l.push((k as f64 * 2. + 3., -3.));
            l.push((-(k as f64) * 2. - 3., -4.));
            c.outer = l;
        }
        "stairs" => {
            let k = (n / 2).max(1);
            let mut v = vec![];
            for i in 0..k {
                v.push((i as f64, i as f64));
                v.push((i as f64 + 1., i as f64));
            }
            v.push((k as f64, k as f64 + 1.));
            v.push((-1., k as f64 + 1.));
            v.push((-1., 0.));
            c.outer = v;
        }
        "file" => {
            // the polygons the repository ships, rotated and thinned
            static F: std::sync::OnceLock<Vec<Vec<P>>> = std::sync::OnceLock::new();
            let v = F.get_or_init(|| {
                ["bird.dat", "nazca_heron.dat"]
                    .iter()
                    .filter_map(|f| std::fs::read_to_string(format!("/repo/test_data/{f}")).ok())
                    .map(|t| {
                        t.lines()
                            .filter_map(|l| {
                                let mut w = l.split_whitespace();
                                Some((w.next()?.parse().ok()?, w.next()?.parse().ok()?))
                            })
                            .collect()
                    })
                    .collect()
            });
            if v.is_empty() || cfg.max_n < 100 {
                return None;
            }
            let f = r.pick(v).clone();
            let keep = (n.max(20) as f64 / f.len() as f64).min(1.);
            c.outer = f.into_iter().filter(|_| r.f() < keep).collect();
        }
        "windmill" => {
            // spikes pointing at a common centre, edges overlapping in x and y
            let k = n.max(3);
            let tw = r.fr(-0.9, 0.9);
            for i in 0..k {
                let t = 2. * PI * i as f64 / k as f64;
                let q = r.fr(80., 100.);
                c.outer.push((q * t.cos(), q * t.sin()));
                let t = t + (0.5 + tw * 0.5) * 2. * PI / k as f64;
                let q = r.fr(1., 20.);
                c.outer.push((q * t.cos(), q * t.sin()));
            }
        }
        "zipper" => {
            // a long thin hole between two columns of free points: inserting its
            // sides crosses most of the triangles found before
            let h = n as f64;
            c.outer = vec![(-9., -9.), (9., -10.), (9.5, h + 9.), (-9., h + 10.)];
            c.holes.push(vec![(0., 0.), (r.fr(-0.3, 0.3), h), (-0.5, h * r.f())]);
            if cfg.steiner {
                for i in 0..n {
                    let y = i as f64 + r.fr(0., 0.9);
                    c.steiner.push((if r.chance(1, 2) { 0.6 + r.f() } else { -0.6 - r.f() }, y));
                }
            }
            if r.chance(1, 2) {
                let t = r.fr(0., 2. * PI);
                c.map(|p| (p.0 * t.cos() - p.1 * t.sin(), p.0 * t.sin() + p.1 * t.cos()));
            }
        }
        "plate" => {
            // a plate with a grid of holes of all shapes, some nearly touching
            let cells = (n / 5).clamp(1, 700);
            let w = r.usize(1, cells.min(30));
            let h = (cells / w).clamp(1, 30);
            let full = *r.pick(&[0.4, 0.8, 1.]);
            let gap = *r.pick(&[1e-6, 0.01, 0.1, 0.3]);
            let same = r.chance(1, 4);
            let shift = *r.pick(&[0., 0., 0.5]);
            let (wf, hf) = (w as f64, h as f64);
            c.outer = match r.below(4) {
                0 => vec![(-1., -1.), (wf + 1., -1.), (wf + 1., hf + 1.), (-1., hf + 1.)],
                1 => vec![(-2., -0.5), (wf + 1., -0.7), (wf + 3., hf + 0.5), (-0.6, hf + 1.)],
                2 => vec![(-gap, -gap), (wf + 1., -gap), (wf + 1., hf + gap), (-gap, hf + gap)],
                _ => vec![(wf / 2., -hf - 2.), (wf * 1.6 + 2., hf / 2.), (wf / 2., hf * 2. + 2.), (-0.6 * wf - 2., hf / 2.)],
            };
            let mut proto: Option<Vec<P>> = None;
            for i in 0..w {
                for j in 0..h {
                    if r.f() > full || c.n() > n.max(12) {
                        continue;
                    }
                    let v = match &proto {
                        Some(v) => v.clone(),
                        None => {
                            let sub = *r.pick(&["star", "starint", "regular", "comb", "spiral", "fractal", "xmono", "polyomino", "windmill", "bowl"]);
                            let cfg = Cfg { max_n: *r.pick(&[3, 4, 5, 8, 20]), wh: Where::Inside, steiner: false, transform: false };
                            let Some(s) = attempt(r, sub, &cfg) else { continue };
                            if same {
                                proto = Some(s.outer.clone());
                            }
                            s.outer
                        }
                    };
                    let (lo, top) = bbox(&v);
                    let k = (1. - gap) / (top.0 - lo.0).max(top.1 - lo.1);
                    let y = j as f64 + if i % 2 == 1 { shift * gap } else { 0. };
                    c.holes.push(v.iter().map(|p| (i as f64 + gap / 2. + (p.0 - lo.0) * k, y + gap / 2. * 0.9 + (p.1 - lo.1) * k * 0.99)).collect());
                }
            }
        }
        _ => unreachable!(),
    }
    if c.outer.len() < 3 {
        return None;
    }
    c.map(rnd);
    if c.invalid().is_some() {
        return None;
    }
    if r.chance(1, 3) {
        let k = r.size(1, 6);
        add_holes(r, &mut c, k);
    }
    if cfg.transform {
        let k = r.below(8);
        let rot = r.fr(0., 2. * PI);
        let s = 10f64.powf(r.fr(-6., 6.));
        let e = 2f64.powi(r.range(-40, 40) as i32);
        let t = (r.fr(-1e4, 1e4), r.fr(-1e4, 1e4));
        match k {
            0 => c.map(|p| (p.0 * rot.cos() - p.1 * rot.sin(), p.0 * rot.sin() + p.1 * rot.cos())),
            1 => c.map(|p| (p.1, p.0)),
            2 => c.map(|p| (-p.0, p.1)),
            3 => c.map(|p| (p.0, -p.1)),
            4 => c.map(|p| (p.0 * s, p.1 * s)),
            5 => c.map(|p| (p.0 + t.0, p.1 + t.1)),
            6 => c.map(|p| (p.0 * e, p.1 * e)),
            _ => {}
        }
    }
    c.map(rnd);
    if cfg.steiner && r.chance(2, 3) {
        let k = r.size(1, cfg.max_n);
        add_steiner(r, &mut c, k, cfg.wh);
    }
    let k = r.below(c.outer.len() as u64) as usize;
    c.outer.rotate_left(k);
    if r.chance(1, 2) {
        c.outer.reverse();
    }
    if c.invalid().is_some() {
        return None;
    }
    Some(c)
}

pub fn generate(r: &mut Rng, cfg: &Cfg) -> Case {
    loop {
        let fam = *r.pick(FAMILIES);
        if let Some(c) = attempt(r, fam, cfg) {
            return c;
        }
    }
}

/// the workload most checks share: mostly small and medium cases, some large
pub fn mix(r: &mut Rng, i: u64, big: usize, wh: &[Where]) -> Case {
    let max_n = match i % 16 {
        0..=3 => 8,
        4..=11 => 40,
        12..=14 => 200.min(big),
        _ => big,
    };
    let wh = *r.pick(wh);
    let steiner = r.chance(4, 5);
    let transform = r.chance(3, 4);
    generate(r, &Cfg { max_n, wh, steiner, transform })
}

/// many points: what happens only beyond a certain size
pub fn large(r: &mut Rng, i: u64) -> Case {
    if i % 127 == 5 {
        // more points than 16 bits can number
        return many(r);
    }
    large_n(r, i, 700, if i % 8 == 0 { 12000 } else { 3500 })
}

pub fn many(r: &mut Rng) -> Case {
    loop {
        let fam = *r.pick(&["rand", "stairs", "comb"]);
        let n = 66_000 + r.below(6000) as usize;
        let c = crate::modes::giant(r, fam, n);
        if c.invalid().is_none() {
            return c;
        }
    }
}

pub fn large_n(r: &mut Rng, i: u64, lo: usize, hi: usize) -> Case {
    loop {
        let n = r.size(lo, hi);
        let mut c = if i % 2 == 0 {
            let fam = *r.pick(crate::modes::GIANTS);
            crate::modes::giant(r, fam, if crate::modes::SLOW.contains(&fam) { n.min(2000) } else { n })
        } else {
            let fam = *r.pick(&["star", "regular", "comb", "spiral", "xmono", "ymono", "grid-jitter", "bowl", "fan", "nested-v", "stairs", "zipper", "windmill", "frame", "plate", "plate"]);
            let cfg = Cfg { max_n: n, wh: Where::Inside, steiner: false, transform: false };
            let Some(mut c) = attempt(r, fam, &cfg) else { continue };
            if c.n() * 2 < lo && !r.chance(1, 8) {
                continue;
            }
            c.family = format!("large-{}", c.family);
            c
        };
        if r.chance(1, 2) {
            // free points all over the place
            let (lo, top) = bbox(&c.outer);
            let (w, h) = (top.0 - lo.0, top.1 - lo.1);
            let m = *r.pick(&[0., 0.3]);
            for _ in 0..r.size(1, hi.min(3000)) {
                c.steiner.push((r.fr(lo.0 - m * w, top.0 + m * w), r.fr(lo.1 - m * h, top.1 + m * h)));
            }
        }
        match r.below(6) {
            0 => c.map(|p| (-p.0, p.1)),
            1 => c.map(|p| (p.0, -p.1)),
            2 => c.map(|p| (p.1, p.0)),
            3 => c.map(|p| (-p.1, p.0)),
            4 => {
                let t = r.fr(0., 6.3f64);
                let (s, k) = t.sin_cos();
                c.map(|p| (k * p.0 - s * p.1, s * p.0 + k * p.1));
            }
            _ => {}
        }
        c.map(rnd);
        if c.invalid().is_some() {
            c.steiner.clear();
        }
        if c.invalid().is_none() {
            return c;
        }
    }
}

/// inputs chosen to defeat rounded arithmetic: huge offsets, one-ulp
/// perturbations of collinear and cocircular points, extreme and anisotropic scales
pub fn extreme(r: &mut Rng, i: u64) -> Case {
    #[cfg(feature = "f32")]
    const BITS: i64 = 23;
    #[cfg(not(feature = "f32"))]
    const BITS: i64 = 52;
    loop {
        let max_n = if i % 8 == 7 { 150 } else { 30 };
        let fam = *r.pick(&[
            "starint", "regular", "lattice-circle", "two-opt-int", "polyomino", "polyomino-holes", "frame", "stairs",
            "comb", "xmono", "ymono", "needle", "two-opt", "fan", "bowl",
        ]);
        let wh = *r.pick(&[Where::Inside, Where::InsideAndHoles, Where::Anywhere]);
        let cfg = Cfg { max_n, wh, steiner: r.chance(3, 4), transform: false };
        let Some(mut c) = attempt(r, fam, &cfg) else { continue };
        let kind = *r.pick(&["offset", "ulp", "scale", "aniso", "shear", "offset-ulp"]);
        let (lo, hi) = bbox(&c.all());
        let ext = (hi.0 - lo.0).max(hi.1 - lo.1);
        let jitter = |r: &mut Rng, c: &mut Case| {
            let k = r.range(1, 3);
            let q = |v: f64, r: &mut Rng| {
                if v == 0. {
                    return r.range(-k, k) as f64 * ext * 2f64.powi(-(BITS as i32));
                }
                let mut v = v as poly2tri_rs::Float;
                let d = r.range(-k, k);
                for _ in 0..d.abs() {
                    v = if d > 0 { v.next_up() } else { v.next_down() };
                }
                v as f64
            };
            for p in c.outer.iter_mut().chain(c.holes.iter_mut().flatten()).chain(c.steiner.iter_mut()) {
                *p = (q(p.0, r), q(p.1, r));
            }
        };
        match kind {
            "offset" | "offset-ulp" => {
                // keep the lattice, lose the spare bits of the mantissa
                let e = ext.log2().ceil() as i64;
                let k = r.range(2, BITS - 4);
                let big = 2f64.powi((e + k) as i32);
                let (sx, sy) = (r.range(-1, 1) as f64, r.range(-1, 1) as f64);
                c.map(|p| (p.0 + sx * big, p.1 + sy * big));
                c.map(rnd);
                if kind == "offset-ulp" {
                    jitter(r, &mut c);
                }
            }
            "ulp" => jitter(r, &mut c),
            "scale" => {
                let k = if BITS == 52 { r.range(-190, 190) } else { r.range(-90, 26) } as i32;
                c.map(|p| (p.0 * 2f64.powi(k), p.1 * 2f64.powi(k)));
            }
            "aniso" => {
                let m = if BITS == 52 { 26 } else { 10 };
                let (k, l) = (r.range(-m, m) as i32, r.range(-m, m) as i32);
                c.map(|p| (p.0 * 2f64.powi(k), p.1 * 2f64.powi(l)));
            }
            _ => {
                let k = 2f64.powi(r.range(1, 20) as i32) * if r.chance(1, 2) { 1. } else { -1. };
                if r.chance(1, 2) {
                    c.map(|p| (p.0 + k * p.1, p.1));
                } else {
                    c.map(|p| (p.0, p.1 + k * p.0));
                }
            }
        }
        c.map(rnd);
        // Steiner points that fell onto an edge or another point go
        if c.invalid().is_some() && !c.steiner.is_empty() {
            c.steiner.clear();
        }
        if c.invalid().is_some() {
            continue;
        }
        c.family = format!("{fam}/{kind}");
        return c;
    }
}
