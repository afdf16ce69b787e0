//! Inputs outside the documented domain: nothing is promised about the result,
//! only that safe calls never cause undefined behaviour.
use crate::case::Case;
use crate::exact::P;
use crate::gen::{self, Cfg, Where};
use crate::rng::Rng;

pub const KINDS: &[&str] = &[
    "soup", "soup-int", "dup-steiner", "steiner-on-edge", "steiner-on-vertex", "hole-overlap",
    "hole-outside", "hole-crossing", "collinear", "tiny-rings", "nan", "inf", "huge", "subnormal",
    "bow-tie", "swap", "dup-vertex", "perturb", "empty-parts", "negzero", "scaled", "mixed-scale", "offset",
];
/// those that make the predicates contradict themselves
const NUMERIC: &[&str] = &["huge", "huge", "inf", "subnormal", "nan", "scaled", "mixed-scale", "offset"];

fn soup(r: &mut Rng, n: usize, m: i64, int: bool) -> Vec<P> {
    (0..n)
        .map(|_| {
            if int {
                (r.range(0, m) as f64, r.range(0, m) as f64)
            } else {
                (r.fr(0., 100.), r.fr(0., 100.))
            }
        })
        .collect()
}

/// any ring of the case
fn ring<'a>(r: &mut Rng, c: &'a mut Case) -> &'a mut Vec<P> {
    let k = r.below(1 + c.holes.len() as u64) as usize;
    if k == 0 {
        &mut c.outer
    } else {
        &mut c.holes[k - 1]
    }
}

/// the share of numeric kinds is numeric / 8
pub fn generate(r: &mut Rng, max_n: usize, numeric: u64) -> Case {
    let kind = *if r.chance(numeric, 8) { r.pick(NUMERIC) } else { r.pick(KINDS) };
    let cfg = Cfg { max_n, wh: Where::Anywhere, steiner: true, transform: r.chance(1, 4) };
    let mut c = if r.chance(1, 3) {
        let mut c = Case::default();
        let n = r.size(3, max_n);
        let int = r.chance(1, 2);
        let m = *r.pick(&[2, 4, 8, 30]);
        c.outer = soup(r, n, m, int);
        for _ in 0..r.below(3) {
            let n = r.size(1, 8);
            c.holes.push(soup(r, n, m, int));
        }
        let n = r.size(1, max_n) - 1;
        c.steiner = soup(r, n, m, int);
        c
    } else {
        gen::generate(r, &cfg)
    };
    c.family = format!("hostile-{kind}");
    let all = c.all();
    let special = |r: &mut Rng, vals: &[f64], c: &mut Case| {
        let k = r.size(1, 6);
        for _ in 0..k {
            let v = *r.pick(vals);
            let s = if r.chance(1, 2) { 1. } else { -1. };
            let x = r.chance(1, 2);
            let both = r.chance(1, 4);
            let st = r.chance(1, 2);
            let t: &mut Vec<P> = if st && !c.steiner.is_empty() { &mut c.steiner } else { ring(r, c) };
            if t.is_empty() {
                continue;
            }
            let i = r.below(t.len() as u64) as usize;
            if x || both {
                t[i].0 = s * v;
            }
            if !x || both {
                t[i].1 = s * v;
            }
        }
    };
    match kind {
        "soup" | "soup-int" => {
            let n = r.size(3, max_n);
            let m = *r.pick(&[1, 2, 4, 8]);
            c.outer = soup(r, n, m, kind == "soup-int");
        }
        "dup-steiner" => {
            for _ in 0..r.size(1, 8) {
                if let Some(&p) = c.steiner.first() {
                    c.steiner.push(p);
                } else {
                    c.steiner.push(all[0]);
                }
            }
        }
        "steiner-on-edge" => {
            for _ in 0..r.size(1, 8) {
                let n = c.outer.len();
                let i = r.below(n as u64) as usize;
                let (a, b) = (c.outer[i], c.outer[(i + 1) % n]);
                let t = *r.pick(&[0.5, 0.25, 0.1]);
                c.steiner.push((a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t));
            }
        }
        "steiner-on-vertex" => {
            for _ in 0..r.size(1, 4) {
                c.steiner.push(*r.pick(&all));
            }
        }
        "hole-overlap" => {
            for _ in 0..r.size(1, 3) {
                let mut h = c.outer.clone();
                let (dx, dy) = (r.fr(-10., 10.), r.fr(-10., 10.));
                for p in h.iter_mut() {
                    p.0 = p.0 * 0.7 + dx;
                    p.1 = p.1 * 0.7 + dy;
                }
                c.holes.push(h);
            }
        }
        "hole-outside" => {
            let mut h = c.outer.clone();
            for p in h.iter_mut() {
                p.0 = p.0 + 300.;
                p.1 += r.fr(-30., 30.);
            }
            c.holes.push(h);
        }
        "hole-crossing" => {
            c.holes.push(soup(r, 3, 4, false));
            let k = r.size(3, 10);
            c.holes.push((0..k).map(|_| (r.fr(-200., 200.), r.fr(-200., 200.))).collect());
        }
        "collinear" => {
            let t = r.chance(1, 2);
            for p in c.outer.iter_mut().chain(c.holes.iter_mut().flatten()).chain(c.steiner.iter_mut()) {
                if t {
                    p.0 = p.1 * 2.;
                } else {
                    p.1 = 1.;
                }
            }
        }
        "tiny-rings" => {
            let k = r.usize(0, 3);
            c.outer.truncate(k);
            if r.chance(1, 2) {
                let k = r.usize(0, 3);
                c.holes.push(soup(r, k, 4, true));
            }
        }
        "nan" => special(r, &[f64::NAN], &mut c),
        "inf" => special(r, &[f64::INFINITY, f64::MAX], &mut c),
        "huge" => special(r, &[1e300, 1e200, 1e155, 1e100, 3.4e38, 1e30], &mut c),
        "subnormal" => special(r, &[5e-324, 1e-310, 1e-300, 1e-200, 1e-150], &mut c),
        "bow-tie" => {
            let o = ring(r, &mut c);
            if o.len() > 3 {
                let i = r.below(o.len() as u64 - 1) as usize;
                o.swap(i, i + 1);
            }
        }
        "swap" => {
            for _ in 0..r.size(1, 5) {
                let o = ring(r, &mut c);
                if !o.is_empty() {
                    let i = r.below(o.len() as u64) as usize;
                    let j = r.below(o.len() as u64) as usize;
                    o.swap(i, j);
                }
            }
        }
        "dup-vertex" => {
            for _ in 0..r.size(1, 4) {
                let p = *r.pick(&all);
                let o = ring(r, &mut c);
                let i = r.below(o.len() as u64 + 1) as usize;
                o.insert(i, p);
            }
        }
        "perturb" => {
            let o = ring(r, &mut c);
            let k = r.size(1, 4);
            for _ in 0..k {
                if !o.is_empty() {
                    let i = r.below(o.len() as u64) as usize;
                    o[i].0 += r.fr(-300., 300.);
                    o[i].1 += r.fr(-300., 300.);
                }
            }
        }
        "empty-parts" => {
            c.holes.push(vec![]);
            if r.chance(1, 3) {
                c.outer.clear();
            }
            if r.chance(1, 3) {
                c.steiner.clear();
            }
        }
        "scaled" => {
            let e = *r.pick(&[80., 100., 130., 150., 160., 300., -80., -100., -150., -160., -300., 37., -40.]);
            let f = 10f64.powf(e);
            let axis = r.below(3);
            c.map(|p| (if axis != 1 { p.0 * f } else { p.0 }, if axis != 2 { p.1 * f } else { p.1 }));
        }
        "mixed-scale" => {
            let e: Vec<f64> = (0..r.size(2, 5)).map(|_| 10f64.powi(r.range(-170, 170) as i32)).collect();
            let mut k = r.below(97) as usize;
            c.map(|p| {
                k = k * 31 % 97 + 1;
                (p.0 * e[k % e.len()], p.1 * e[k / 3 % e.len()])
            });
        }
        "offset" => {
            let f = *r.pick(&[1e14, 1e16, 3e17, 1e18, 1e25]);
            let (a, b) = (r.chance(2, 3), r.chance(2, 3));
            c.map(|p| (if a { p.0 + f } else { p.0 }, if b { p.1 - f } else { p.1 }));
        }
        "negzero" => special(r, &[0.0], &mut c),
        _ => unreachable!(),
    }
    c
}
