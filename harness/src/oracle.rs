//! Exact oracles over one finished triangulation.
use crate::case::Case;
use crate::exact::{self, P};
use std::collections::HashMap;

pub type Tri = [u32; 3];

/// tiling + constraint edges: every triangle is non-degenerate and
/// counter-clockwise, and the directed edges that do not cancel are exactly the
/// outline (counter-clockwise) and the holes (clockwise).  For a chain of
/// positive triangles that is equivalent to: every point of the domain is
/// covered exactly once and no other point is covered.
pub fn tiling(c: &Case, all: &[P], tris: &[Tri]) -> Result<(), String> {
    orientation(all, tris)?;
    let mut e: HashMap<(u32, u32), i32> = HashMap::new();
    let mut add = |a: u32, b: u32, s: i32| {
        if a < b {
            *e.entry((a, b)).or_default() += s;
        } else {
            *e.entry((b, a)).or_default() -= s;
        }
    };
    for t in tris {
        for i in 0..3 {
            add(t[i], t[(i + 1) % 3], 1);
        }
    }
    let mut base = 0u32;
    for (k, ring) in std::iter::once(&c.outer).chain(c.holes.iter()).enumerate() {
        let s = exact::area_sign(ring) * if k == 0 { 1 } else { -1 };
        let n = ring.len() as u32;
        for i in 0..n {
            add(base + i, base + (i + 1) % n, -s);
        }
        base += n;
    }
    let mut bad: Vec<_> = e.iter().filter(|x| *x.1 != 0).collect();
    bad.sort();
    if let Some(((a, b), k)) = bad.first() {
        return Err(format!(
            "boundary mismatch at edge {a}-{b} ({k:+}); {} edges differ; {} triangles",
            bad.len(),
            tris.len()
        ));
    }
    Ok(())
}

pub fn orientation(all: &[P], tris: &[Tri]) -> Result<(), String> {
    for t in tris {
        if t.iter().any(|&i| i as usize >= all.len()) {
            return Err(format!("triangle {t:?} refers to a point that is not an input"));
        }
        let o = exact::orient(all[t[0] as usize], all[t[1] as usize], all[t[2] as usize]);
        if o != 1 {
            return Err(format!(
                "triangle {t:?} is {}",
                if o == 0 { "degenerate" } else { "clockwise" }
            ));
        }
    }
    Ok(())
}

pub fn constraint_set(c: &Case) -> std::collections::HashSet<(u32, u32)> {
    let mut s = std::collections::HashSet::new();
    let mut base = 0u32;
    for ring in std::iter::once(&c.outer).chain(c.holes.iter()) {
        let n = ring.len() as u32;
        for i in 0..n {
            let (a, b) = (base + i, base + (i + 1) % n);
            s.insert((a.min(b), a.max(b)));
        }
        base += n;
    }
    s
}

/// every edge shared by two result triangles that is not a constraint is locally Delaunay;
/// returns the number of edges tested
pub fn delaunay(c: &Case, all: &[P], tris: &[Tri]) -> Result<usize, String> {
    let cons = constraint_set(c);
    let mut e: HashMap<(u32, u32), (usize, u32)> = HashMap::new();
    let mut n = 0;
    for (k, t) in tris.iter().enumerate() {
        for i in 0..3 {
            let (a, b, o) = (t[i], t[(i + 1) % 3], t[(i + 2) % 3]);
            let key = (a.min(b), a.max(b));
            if cons.contains(&key) {
                continue;
            }
            if let Some(&(k2, o2)) = e.get(&key) {
                n += 1;
                if exact::incircle(
                    all[t[0] as usize],
                    all[t[1] as usize],
                    all[t[2] as usize],
                    all[o2 as usize],
                ) > 0
                {
                    return Err(format!(
                        "edge {key:?} not Delaunay: point {o2} of triangle {:?} lies inside the circumcircle of {t:?} (opposite {o})",
                        tris[k2]
                    ));
                }
            } else {
                e.insert(key, (k, o));
            }
        }
    }
    Ok(n)
}
