//! Checks that use only what a user of the crate sees: builder, result, observer.
use crate::case::{self, Case};
use crate::drive::{Ctx, Mode, V};
use crate::exact::{self, P};
use crate::gen::{self, Where};
use crate::oracle::{self, Tri};
use crate::rng::Rng;
use crate::run::{self, guard};
use poly2tri_rs::{Builder, Edge, Observer, Point, PointId, Sweeper, TriangleId, CDT};
use std::collections::{HashMap, HashSet};

const IN: &[Where] = &[Where::Inside];
const ANY: &[Where] = &[Where::Inside, Where::InsideAndHoles, Where::Anywhere];
const OUT: &[Where] = &[Where::InsideAndHoles, Where::Anywhere, Where::Anywhere];

macro_rules! held {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(s) => return V::Bad(s),
        }
    };
}

fn check_counts(ctx: &mut Ctx, c: &Case, t: &[Tri]) {
    ctx.add("triangles_checked", t.len());
    ctx.add("points_given", c.n());
    ctx.add("holes_given", c.holes.len());
    ctx.add("steiner_given", c.steiner.len());
}

// ---- C01 ----
fn g_mix(r: &mut Rng, i: u64) -> Case {
    gen::mix(r, i, 900, ANY)
}
/// tiling oracle, Euler count, no repeated triangle
fn tiling_of(c: &Case, all: &[P], t: &[Tri]) -> Result<(), String> {
    oracle::tiling(c, all, t)?;
    // Euler: a domain with h holes, b boundary vertices and i interior ones
    // has b + 2i + 2(h-1) triangles
    let ring: usize = c.outer.len() + c.holes.iter().map(|h| h.len()).sum::<usize>();
    let inner = c.steiner.iter().filter(|&&p| c.in_domain(p)).count();
    let want = ring + 2 * inner + 2 * c.holes.len() - 2;
    if t.len() != want {
        return Err(format!("{} triangles, Euler's formula gives {want}", t.len()));
    }
    let set: HashSet<[u32; 3]> = t
        .iter()
        .map(|t| {
            let mut s = *t;
            s.sort();
            s
        })
        .collect();
    if set.len() != t.len() {
        return Err("a triangle is reported twice".into());
    }
    Ok(())
}
fn k_tiling(ctx: &mut Ctx, c: &Case, _: u64) -> V {
    let t = held!(run::indices(c));
    held!(tiling_of(c, &c.all(), &t));
    check_counts(ctx, c, &t);
    V::Held(t.len() >= 2)
}

// ---- C02 ----
fn constraints_of(c: &Case, all: &[P], t: &[Tri]) -> Result<usize, String> {
    let mut dir: HashMap<(u32, u32), u32> = HashMap::new();
    for t in t {
        for k in 0..3 {
            *dir.entry((t[k], t[(k + 1) % 3])).or_default() += 1;
        }
    }
    let mut base = 0u32;
    let mut n = 0;
    for (k, ring) in std::iter::once(&c.outer).chain(c.holes.iter()).enumerate() {
        // domain on the left of the directed edge
        let fwd = (exact::area_sign(ring) > 0) == (k == 0);
        let m = ring.len() as u32;
        for i in 0..m {
            let (a, b) = (base + i, base + (i + 1) % m);
            let (a, b) = if fwd { (a, b) } else { (b, a) };
            let ins = dir.get(&(a, b)).copied().unwrap_or(0);
            let out = dir.get(&(b, a)).copied().unwrap_or(0);
            n += 1;
            if ins != 1 || out != 0 {
                return Err(format!(
                    "segment {a}-{b} ({:?}-{:?}) of {} has {ins} triangles on the filled side and {out} on the empty side",
                    all[a as usize],
                    all[b as usize],
                    if k == 0 { "the outline" } else { "a hole" }
                ));
            }
        }
        base += m;
    }
    Ok(n)
}
/// geometric cross-check for small cases: no triangle edge properly crosses a
/// segment and no triangle lies in a hole or outside
fn crossing_of(c: &Case, all: &[P], t: &[Tri]) -> Result<usize, String> {
    let cons: Vec<(u32, u32)> = oracle::constraint_set(c).into_iter().collect();
    let mut n = 0;
    for t in t {
        for k in 0..3 {
            let (a, b) = (t[k], t[(k + 1) % 3]);
            for &(p, q) in &cons {
                if a == p || a == q || b == p || b == q {
                    continue;
                }
                n += 1;
                if exact::seg_touch(all[a as usize], all[b as usize], all[p as usize], all[q as usize]) {
                    return Err(format!("triangle edge {a}-{b} meets segment {p}-{q}"));
                }
            }
        }
    }
    Ok(n)
}
fn k_constraints(ctx: &mut Ctx, c: &Case, _: u64) -> V {
    let t = held!(run::indices(c));
    let all = c.all();
    held!(oracle::orientation(&all, &t));
    let n = held!(constraints_of(c, &all, &t));
    ctx.add("segments_checked", n);
    if c.n() <= 40 {
        let m = held!(crossing_of(c, &all, &t));
        ctx.add("crossing_tests", m);
    }
    check_counts(ctx, c, &t);
    V::Held(t.len() >= 2)
}

// ---- C03 ----
fn g_delaunay(r: &mut Rng, i: u64) -> Case {
    gen::mix(r, i, 1500, ANY)
}
/// definition, not the local criterion: no point visible from the inside of a
/// triangle lies in its circumcircle (only for small cases)
fn delaunay_global(c: &Case, all: &[P], t: &[Tri]) -> Result<usize, String> {
    let used: HashSet<u32> = t.iter().flatten().copied().collect();
    let cons: Vec<(u32, u32)> = oracle::constraint_set(c).into_iter().collect();
    let mut n = 0;
    for t in t {
        let p = [all[t[0] as usize], all[t[1] as usize], all[t[2] as usize]];
        for &v in &used {
            if t.contains(&v) {
                continue;
            }
            n += 1;
            let q = all[v as usize];
            if exact::incircle(p[0], p[1], p[2], q) <= 0 {
                continue;
            }
            // visible if the open segment from some corner to q crosses no constraint;
            // enough for an alarm: all three corners see it
            let sees = |a: u32| {
                cons.iter().all(|&(x, y)| {
                    if x == v || y == v || x == a || y == a {
                        // shares an end: blocked only if it passes through
                        true
                    } else {
                        !exact::seg_touch(all[a as usize], q, all[x as usize], all[y as usize])
                    }
                })
            };
            let mid_in = t.iter().all(|&a| {
                let s = all[a as usize];
                let m = ((s.0 + q.0) / 2., (s.1 + q.1) / 2.);
                oracle::constraint_set(c).contains(&(a.min(v), a.max(v))) || c.in_domain(m)
            });
            if mid_in && t.iter().all(|&a| sees(a)) {
                return Err(format!(
                    "point {v} is visible from triangle {t:?} and inside its circumcircle"
                ));
            }
        }
    }
    Ok(n)
}
fn k_delaunay(ctx: &mut Ctx, c: &Case, _: u64) -> V {
    let t = held!(run::indices(c));
    let all = c.all();
    held!(oracle::tiling(c, &all, &t));
    let n = held!(oracle::delaunay(c, &all, &t));
    ctx.add("edges_tested", n);
    if c.n() <= 16 {
        let m = held!(delaunay_global(c, &all, &t));
        ctx.add("point_in_circle_tests", m);
    }
    check_counts(ctx, c, &t);
    V::Held(n >= 1)
}

// ---- C04 ----
fn g_steiner(r: &mut Rng, i: u64) -> Case {
    loop {
        let c = gen::mix(r, i, 700, OUT);
        if !c.steiner.is_empty() {
            return c;
        }
    }
}
/// strictly Delaunay: no unconstrained edge has four cocircular points, so the
/// constrained Delaunay triangulation is unique
fn unique(c: &Case, all: &[P], tris: &[Tri]) -> bool {
    let cons = oracle::constraint_set(c);
    let mut e: HashMap<(u32, u32), u32> = HashMap::new();
    for t in tris {
        for i in 0..3 {
            let (a, b, o) = (t[i], t[(i + 1) % 3], t[(i + 2) % 3]);
            let key = (a.min(b), a.max(b));
            if cons.contains(&key) {
                continue;
            }
            if let Some(&o2) = e.get(&key) {
                if exact::incircle(all[t[0] as usize], all[t[1] as usize], all[t[2] as usize], all[o2 as usize]) == 0 {
                    return false;
                }
            } else {
                e.insert(key, o);
            }
        }
    }
    true
}
fn k_steiner(ctx: &mut Ctx, c: &Case, _: u64) -> V {
    let t = held!(run::indices(c));
    let all = c.all();
    held!(oracle::orientation(&all, &t));
    let used: HashSet<u32> = t.iter().flatten().copied().collect();
    let first = c.n() - c.steiner.len();
    let mut inner = vec![];
    for (i, &p) in all.iter().enumerate() {
        let want = i < first || c.in_domain(p);
        if want != used.contains(&(i as u32)) {
            return V::Bad(format!(
                "{} point {i} {p:?} is {}a vertex of the result",
                if i < first {
                    "polyline"
                } else if want {
                    "free inside"
                } else {
                    "free outside"
                },
                if want { "not " } else { "" }
            ));
        }
        if i >= first {
            ctx.add(if want { "inside_steiner" } else { "outside_steiner" }, 1);
            if want {
                inner.push(p);
            }
        }
    }
    let outside = c.steiner.len() - inner.len();
    if outside > 0 {
        let d = Case { steiner: inner, ..c.clone() };
        let t2 = held!(run::indices(&d));
        let all2 = d.all();
        if t.len() != t2.len() {
            return V::Bad(format!(
                "{outside} points outside the domain change the number of triangles from {} to {}",
                t2.len(),
                t.len()
            ));
        }
        if unique(&d, &all2, &t2) {
            ctx.add("unique_compared", 1);
            if run::geometry(&all, &t) != run::geometry(&all2, &t2) {
                return V::Bad(format!("{outside} points outside the domain change the triangles"));
            }
        }
    }
    check_counts(ctx, c, &t);
    V::Held(outside > 0 || c.steiner.len() > 1)
}

// ---- C05 ----
fn same(a: P, b: &Point) -> bool {
    let b = case::xy(b);
    a.0.to_bits() == b.0.to_bits() && a.1.to_bits() == b.1.to_bits()
}
fn views(ctx: &mut Ctx, c: &Case, aux: u64) -> Result<bool, String> {
    let all = c.all();
    let mut r = Rng::new(aux, 5);
    let mut t = guard(|| run::cdt(c).triangulate())?;
    guard(|| {
        let idx = t.triangle_list_indices();
        if t.points().len() != all.len() {
            return Err(format!("points() has {} entries for {} inputs", t.points().len(), all.len()));
        }
        if t.data().len() != all.len() {
            return Err(format!("data() has {} entries for {} inputs", t.data().len(), all.len()));
        }
        for (i, (p, q)) in all.iter().zip(t.points()).enumerate() {
            if !same(*p, q) {
                return Err(format!("points()[{i}] is {:?}, the input is {p:?}", case::xy(q)));
            }
        }
        if idx.len() % 3 != 0 {
            return Err(format!("{} indices", idx.len()));
        }
        if let Some(i) = idx.iter().find(|&&i| i as usize >= all.len()) {
            return Err(format!("index {i} for {} points", all.len()));
        }
        if idx.is_empty() {
            return Err("no triangles".into());
        }
        let mut k = 0;
        while let Some(tr) = t.next() {
            if 3 * k + 3 > idx.len() {
                return Err(format!("iterator yields more than {} triangles", idx.len() / 3));
            }
            for j in 0..3 {
                let p = all[idx[3 * k + j] as usize];
                if !same(p, &tr.points[j]) {
                    return Err(format!(
                        "triangle {k} corner {j}: iterator says {:?}, the index list {p:?}",
                        case::xy(&tr.points[j])
                    ));
                }
            }
            k += 1;
            // looking at the other views must not disturb the iteration
            if r.chance(1, 8) && t.triangle_list_indices() != idx {
                return Err(format!("index list changed after {k} triangles were taken"));
            }
            if r.chance(1, 16) && t.points().len() != all.len() {
                return Err("points() changed during iteration".into());
            }
        }
        if 3 * k != idx.len() {
            return Err(format!("iterator yields {k} triangles, the index list {}", idx.len() / 3));
        }
        for _ in 0..3 {
            if t.next().is_some() {
                return Err("iterator restarts after its end".into());
            }
        }
        if t.triangle_list_indices() != idx {
            return Err("index list changed by iterating".into());
        }
        ctx.add("triangles_compared", k);
        // iterator adapters see the same sequence
        let t2 = run::cdt(c).triangulate();
        let skip = r.below(k as u64) as usize;
        let rest: Vec<_> = t2.skip(skip).collect();
        if rest.len() != k - skip || !(0..3).all(|j| same(all[idx[3 * skip + j] as usize], &rest[0].points[j])) {
            return Err(format!("skip({skip}) does not continue at triangle {skip}"));
        }
        // and so does every other way of iterating, from any position
        let mut t3 = run::cdt(c).triangulate();
        let mut at = r.below(k as u64 + 1) as usize;
        for _ in 0..at {
            t3.next();
        }
        let is = |n: usize, t: &Option<poly2tri_rs::Triangle>| match t {
            None => n >= k,
            Some(t) => n < k && (0..3).all(|j| same(all[idx[3 * n + j] as usize], &t.points[j])),
        };
        for _ in 0..3 {
            let (lo, hi) = t3.size_hint();
            if lo > k - at || hi.is_some_and(|h| h < k - at) {
                return Err(format!("size_hint is {lo}..{hi:?} with {} triangles left", k - at));
            }
            let n = r.below((k - at) as u64 + 2) as usize;
            if !is(at + n, &t3.nth(n)) {
                return Err(format!("nth({n}) after {at} of {k} triangles is wrong"));
            }
            at = (at + n + 1).min(k);
        }
        let n = r.below((k - at) as u64 + 1) as usize;
        let some: Vec<_> = t3.by_ref().take(n).collect();
        if some.len() != n || !some.into_iter().enumerate().all(|(i, t)| is(at + i, &Some(t))) {
            return Err(format!("take({n}) after {at} of {k} triangles is wrong"));
        }
        at += n;
        let ok = match r.below(5) {
            0 => t3.count() == k - at,
            1 => is(if at < k { k - 1 } else { k }, &t3.last()),
            2 => t3.fold(at, |i, t| if i < k && is(i, &Some(t)) { i + 1 } else { k + 1 }) == k,
            3 => t3.enumerate().all(|(i, t)| is(at + i, &Some(t))),
            _ => t3.step_by(2).enumerate().map(|(i, t)| is(at + 2 * i, &Some(t)) as usize).sum::<usize>() == (k - at + 1) / 2,
        };
        if !ok {
            return Err(format!("count, last, fold or step_by after {at} of {k} triangles is wrong"));
        }
        ctx.add("iterations_from_the_middle", 1);
        Ok(k >= 2)
    })?
}
fn k_views(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    match views(ctx, c, aux) {
        Ok(b) => V::Held(b),
        Err(s) => V::Bad(s),
    }
}

// ---- C06 ----
struct Tok(u32, std::rc::Rc<std::cell::Cell<i64>>);
impl Tok {
    fn new(i: u32, n: &std::rc::Rc<std::cell::Cell<i64>>) -> Tok {
        n.set(n.get() + 1);
        Tok(i, n.clone())
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok::new(self.0, &self.1)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.1.set(self.1.get() - 1);
    }
}
/// a user's own point source
struct Own<D> {
    p: std::collections::VecDeque<Point>,
    d: Vec<D>,
}
impl<D> poly2tri_rs::PointDataSource for Own<D> {
    type Data = D;
    fn points_and_data(self) -> (Vec<Point>, Vec<D>) {
        (self.p.into(), self.d)
    }
}

fn builder(ctx: &mut Ctx, c: &Case, aux: u64) -> Result<bool, String> {
    use std::rc::Rc;
    let live = Rc::new(std::cell::Cell::new(0i64));
    let mut r = Rng::new(aux, 6);
    let canon = run::indices(c)?;
    let call = c.all();
    let mut model: Vec<(P, u32)> = vec![];
    let mut next = 0u32;
    let mut log = vec![];
    let res = guard(|| {
        let mut mk = |v: &[P], model: &mut Vec<(P, u32)>| -> (Vec<Point>, Vec<Tok>) {
            let mut d = vec![];
            for &p in v {
                d.push(Tok::new(next, &live));
                model.push((p, next));
                next += 1;
            }
            (case::pts(v), d)
        };
        let mut b = Builder::new(mk(&c.outer, &mut model));
        let mut holes: Vec<&Vec<P>> = c.holes.iter().collect();
        let mut st: Vec<P> = c.steiner.clone();
        r.shuffle(&mut holes);
        r.shuffle(&mut st);
        let mut kept = vec![];
        loop {
            match r.below(7) {
                0 | 1 => {
                    if let Some(p) = st.pop() {
                        let (pv, mut dv) = mk(&[p], &mut model);
                        b = b.add_steiner_point(pv[0], dv.pop().unwrap());
                        log.push("point".to_string());
                    }
                }
                2 => {
                    let k = r.below(st.len() as u64 + 1) as usize;
                    let v: Vec<P> = st.split_off(st.len() - k);
                    b = b.add_steiner_points(mk(&v, &mut model));
                    log.push(format!("points({k})"));
                }
                3 => {
                    if let Some(h) = holes.pop() {
                        b = b.add_hole(mk(h, &mut model));
                        log.push(format!("hole({})", h.len()));
                    }
                }
                4 => {
                    let k = r.below(holes.len() as u64 + 1) as usize;
                    let v: Vec<_> = holes.split_off(holes.len() - k);
                    let mut s = vec![];
                    for h in v {
                        s.push(mk(h, &mut model));
                    }
                    // iterators that know their length, know nothing about it, or know it in part
                    match r.below(5) {
                        0 => b = b.add_holes(s),
                        1 => b = b.add_holes(s.into_iter().filter(|_| true)),
                        2 => {
                            let mut it = s.into_iter();
                            b = b.add_holes(std::iter::from_fn(move || it.next()))
                        }
                        3 => {
                            let rest = s.split_off(s.len() / 2);
                            b = b.add_holes(s.into_iter().chain(rest.into_iter().filter(|_| true)))
                        }
                        _ => b = b.add_holes(s.into_iter().map(|(p, d)| Own { p: p.into(), d })),
                    }
                    log.push(format!("holes({k})"));
                }
                5 => {
                    // a clone that goes its own way must not matter
                    if kept.len() < 2 {
                        let (lo, hi) = crate::gen::bbox(&c.outer);
                        let e: P = (r.fr(lo.0, hi.0), r.fr(lo.1, hi.1));
                        #[allow(clippy::unnecessary_cast)]
                        let e: P = (e.0 as poly2tri_rs::Float as f64, e.1 as poly2tri_rs::Float as f64);
                        let mut cl = if r.chance(1, 3) {
                            // cloned into a builder that has something else in it
                            let mut cl = match kept.pop() {
                                Some((old, _, _)) => old,
                                None => Builder::new(Own {
                                    p: case::pts(&c.outer).into(),
                                    d: (0..c.outer.len()).map(|_| Tok::new(u32::MAX, &live)).collect(),
                                }),
                            };
                            cl.clone_from(&b);
                            cl
                        } else {
                            b.clone()
                        };
                        let mut sub = c.clone();
                        sub.holes = c.holes.iter().filter(|h| !holes.contains(h)).cloned().collect();
                        let ring = c.outer.len() + sub.holes.iter().map(|h| h.len()).sum::<usize>();
                        let corner: HashSet<(u64, u64)> =
                            c.outer.iter().chain(c.holes.iter().flatten()).map(|p| (p.0.to_bits(), p.1.to_bits())).collect();
                        sub.steiner =
                            model.iter().map(|m| m.0).filter(|p| !corner.contains(&(p.0.to_bits(), p.1.to_bits()))).collect();
                        let mut m = model.clone();
                        if ring + sub.steiner.len() != m.len() {
                            // a Steiner point with the coordinates of a corner of a later hole: leave it
                            continue;
                        }
                        for _ in 0..r.below(3) {
                            let d = Tok::new(u32::MAX - m.len() as u32, &live);
                            m.push((e, d.0));
                            sub.steiner.push(e);
                            cl = if r.chance(1, 2) {
                                cl.add_steiner_point(Point::new(e.0 as _, e.1 as _), d)
                            } else {
                                cl.add_steiner_points((vec![Point::new(e.0 as _, e.1 as _)], vec![d]))
                            };
                            break;
                        }
                        kept.push((cl, m, sub));
                        log.push("clone".to_string());
                    }
                }
                _ => {
                    // sources without a point say nothing
                    match r.below(8) {
                        0 => b = b.add_hole(mk(&[], &mut model)),
                        1 => b = b.add_holes(vec![mk(&[], &mut model), mk(&[], &mut model)]),
                        2 => b = b.add_steiner_points(mk(&[], &mut model)),
                        3 => b = b.add_holes(Vec::<(Vec<Point>, Vec<Tok>)>::new()),
                        _ => {}
                    }
                    if st.is_empty() && holes.is_empty() {
                        break;
                    }
                }
            }
        }
        let cdt = b.build();
        let cdt2 = match r.below(6) {
            0 | 1 => Some(cdt.clone()),
            2 => {
                let d = (0..c.outer.len()).map(|_| Tok::new(u32::MAX, &live)).collect();
                let mut x = Builder::new(Own { p: case::pts(&c.outer).into(), d }).build();
                x.clone_from(&cdt);
                Some(x)
            }
            _ => None,
        };
        let t = cdt.triangulate();
        ctx.add("builder_calls", log.len());
        let same_model = |t: &poly2tri_rs_triangles::Out| -> Result<(), String> {
            if t.pts.len() != model.len() || t.data.len() != model.len() {
                return Err(format!(
                    "{} points and {} data after adding {} of each by {:?}",
                    t.pts.len(),
                    t.data.len(),
                    model.len(),
                    log
                ));
            }
            for (i, (p, d)) in model.iter().enumerate() {
                if !same(*p, &t.pts[i]) {
                    return Err(format!("point {i} is {:?}, added as {p:?}; calls {log:?}", case::xy(&t.pts[i])));
                }
                if t.data[i] != *d {
                    return Err(format!("datum of point {i} is {}, added as {d}; calls {log:?}", t.data[i]));
                }
            }
            Ok(())
        };
        let out = poly2tri_rs_triangles::Out {
            pts: t.points().to_vec(),
            data: t.data().iter().map(|d| d.0).collect(),
        };
        same_model(&out)?;
        let all: Vec<P> = model.iter().map(|m| m.0).collect();
        let tr = run::tris(&t.triangle_list_indices());
        for t in &tr {
            if t.iter().any(|&i| i as usize >= all.len()) {
                return Err(format!("triangle {t:?} refers to no added point; calls {log:?}"));
            }
        }
        if tr.len() != canon.len() {
            return Err(format!("{} triangles instead of {} for calls {log:?}", tr.len(), canon.len()));
        }
        if unique(c, &call, &canon) {
            ctx.add("unique_compared", 1);
            if run::geometry(&all, &tr) != run::geometry(&call, &canon) {
                return Err(format!("different triangles for calls {log:?}"));
            }
        }
        // the very same point order added in one go gives the very same indices
        if let Some(c2) = cdt2 {
            let t2 = c2.triangulate();
            if t2.triangle_list_indices() != t.triangle_list_indices() || t2.data().len() != t.data().len() {
                return Err("a cloned CDT gives a different result".into());
            }
            ctx.add("cdt_clones", 1);
        }
        for (cl, m, sub) in kept {
            match r.below(4) {
                0 => drop(cl),
                1 => drop(cl.build()),
                _ if sub.invalid().is_some() => drop(cl.build()),
                _ => {
                    // what became of the clone
                    let mut t = cl.build().triangulate();
                    let got: Vec<(P, u32)> = t.points().iter().map(case::xy).zip(t.data().iter().map(|d| d.0)).collect();
                    if got != m || t.points().len() != m.len() || t.data().len() != m.len() {
                        return Err(format!("a clone of the builder has {} points and {} data of {} after {log:?}", t.points().len(), t.data().len(), m.len()));
                    }
                    let n = t.triangle_list_indices().len() / 3;
                    let want = run::indices(&sub)?.len();
                    if n != want {
                        return Err(format!("a clone of the builder gives {n} triangles instead of {want} after {log:?}"));
                    }
                    for _ in 0..r.below(4) {
                        t.next();
                    }
                    ctx.add("builder_clones_checked", 1);
                }
            }
        }
        // an observer that panics: nothing is lost or dropped twice
        if r.chance(1, 4) {
            let (pv, dv) = mk(&c.outer, &mut Vec::new());
            let cdt = Builder::new((pv, dv)).build();
            let at = r.below(c.outer.len() as u64);
            let _ = guard(|| cdt.triangulate_with_observer(&mut Bomb(at)));
            ctx.add("runs_aborted", 1);
        }
        ctx.add("data_tracked", model.len());
        Ok(model.len() > 3 && log.len() > 1)
    })??;
    if live.get() != 0 {
        return Err(format!("{} associated data values leaked or dropped twice", live.get()));
    }
    adapters(ctx, &call, aux)?;
    Ok(res)
}
/// the values a user builds sources of
fn adapters(ctx: &mut Ctx, all: &[P], aux: u64) -> Result<(), String> {
    use poly2tri_rs::{AsPoint, Float, PointDataSource};
    let mut r = Rng::new(aux, 66);
    let odd = [f64::NAN, f64::INFINITY, -0.0, 1e300, 5e-324, -1.5];
    for k in 0..6 {
        let mut p = *r.pick(all);
        if k > 3 {
            p = (*r.pick(&odd), *r.pick(&odd));
        }
        let (x, y) = (p.0 as Float, p.1 as Float);
        let bits = |q: Point| (q.x.to_bits(), q.y.to_bits());
        let want = (x.to_bits(), y.to_bits());
        let q = Point::new(x, y);
        let tag = format!("datum {aux} {k}");
        let got = [bits(q), bits(q.point()), bits((q, tag.clone()).point()), bits(([x, y], tag.clone()).point())];
        if got.iter().any(|g| *g != want) {
            return Err(format!("an adapter changes the point {p:?}"));
        }
        let () = q.data();
        if (q, tag.clone()).data() != tag || ([x, y], tag.clone()).data() != tag {
            return Err("an adapter gives another datum".into());
        }
        let o = *r.pick(all);
        if q.eq(&Point::new(o.0 as Float, o.1 as Float)) != (x == o.0 as Float && y == o.1 as Float) {
            return Err(format!("equality of {p:?} and {o:?} is wrong"));
        }
    }
    // the sources themselves
    let d: Vec<usize> = (0..all.len()).map(|i| i * 7).collect();
    let (p1, u) = case::pts(all).points_and_data();
    let (p2, e) = (case::pts(all), d.clone()).points_and_data();
    if u.len() != all.len() || e != d || p1.len() != all.len() || p2.len() != all.len() {
        return Err("a source gives another number of points or data".into());
    }
    if let Some(i) = (0..all.len()).find(|&i| !same(all[i], &p1[i]) || !same(all[i], &p2[i])) {
        return Err(format!("a source changes point {i}"));
    }
    ctx.add("adapters_compared", 8);
    Ok(())
}
mod poly2tri_rs_triangles {
    pub struct Out {
        pub pts: Vec<poly2tri_rs::Point>,
        pub data: Vec<u32>,
    }
}
fn k_builder(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    match builder(ctx, c, aux) {
        Ok(b) => V::Held(b),
        Err(s) => V::Bad(s),
    }
}

// ---- C07 ----
/// counts every callback and stops the run when the bound is passed
pub struct Budget {
    pub events: u64,
    pub rotations: u64,
    pub points: u64,
    pub bound: u64,
}
impl Budget {
    fn tick(&mut self) {
        self.events += 1;
        if self.events > self.bound {
            panic!("more than {} steps", self.bound);
        }
    }
}
impl Observer for Budget {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.points += 1;
        self.tick()
    }
    fn edge_event(&mut self, _: Edge, _: &Sweeper) {
        self.tick()
    }
    fn will_legalize(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick()
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, _: &Sweeper) {
        self.rotations += 1;
        self.tick()
    }
}
fn k_total(ctx: &mut Ctx, c: &Case, _: u64) -> V {
    let n = c.n() as u64;
    let mut b = Budget { events: 0, rotations: 0, points: 0, bound: 64 * (n + 10) * (n + 10) };
    let t = held!(run::indices_observed(c, &mut b));
    if t.is_empty() {
        return V::Bad("no triangles".into());
    }
    if b.points + 1 != n {
        return V::Bad(format!("{} of {n} points were processed", b.points + 1));
    }
    ctx.add("steps", b.events as usize);
    ctx.add("rotations", b.rotations as usize);
    ctx.max("max_steps_per_point", (b.events / n) as usize);
    check_counts(ctx, c, &t);
    V::Held(t.len() >= 2)
}
pub const GIANTS: &[&str] = &[
    "fan", "bowl", "bowlin", "hill", "bowl4", "vert", "cross", "comb", "combdown", "slant", "arc", "rand", "spike",
    "zip", "zipr", "star", "hillover", "hilloverl", "circle", "comb-holes", "stairs", "sawside", "fanflip", "fanflip-hole",
];
/// large inputs, each built to drive one part of the sweep deep
pub fn giant(r: &mut Rng, fam: &str, n: usize) -> Case {
    let mut c = Case { family: format!("giant-{fam}"), ..Default::default() };
    let nf = n as f64;
    let par = |e: f64, k: f64| -> Vec<P> {
        (0..n)
            .map(|i| {
                let t: f64 = -1. + 2. * i as f64 / (nf - 1.);
                (t * 1e3, t.abs().powf(e) * k)
            })
            .collect()
    };
    match fam {
        "fan" => {
            c.outer = (0..n).map(|i| (i as f64, if i % 2 == 0 { 0. } else { 0.5 + 0.3 * r.f() })).collect();
            c.outer.push((nf + 5., 1e3));
            c.outer.push((-5., 1.5));
        }
        "bowl" => {
            c.outer = par(2., 1e3);
            c.outer.push((1100., -10.));
            c.outer.push((-1100., -11.));
        }
        "bowlin" => c.outer = par(2., 1e3),
        "hill" => c.outer = par(2., -1e3),
        "bowl4" => {
            c.outer = par(4., 1e4);
            c.outer.push((1100., -10.));
            c.outer.push((-1100., -11.));
        }
        "vert" => {
            c.outer = vec![(0., 0.), (100., 1.), (101., 1e4 + 1.), (-1., 1e4)];
            for i in 0..n {
                c.steiner.push((50. + r.fr(-30., 30.), 10. + (1e4 - 20.) * (i as f64) / nf));
            }
        }
        "cross" => {
            c.outer = vec![(0., 0.), (1000., 0.), (1000., 1000.), (0., 1000.)];
            c.holes.push(vec![(1., 1.), (999., 998.), (998., 999.)]);
            for _ in 0..n {
                let p = (r.fr(1., 999.), r.fr(1., 999.));
                if f64::abs(p.0 - p.1) > 3. {
                    c.steiner.push(p);
                }
            }
        }
        "comb" | "combdown" => {
            let s = if fam == "comb" { 1. } else { -1. };
            for i in 0..n / 2 {
                let x = i as f64 * 2.;
                c.outer.push((x, s * (100. + r.f())));
                c.outer.push((x + 1., s * r.f()));
            }
            c.outer.push((nf, s * 101.));
            c.outer.push((nf, s * -5.));
            c.outer.push((-1., s * -5.));
        }
        "slant" => {
            for i in 0..n {
                let t = i as f64 / nf;
                c.outer.push((t * 1000., -t * 900. - 40. * (t * (1. - t))));
            }
            c.outer.push((1000., -901.));
            c.outer.push((1001., -900.));
            c.outer.push((500., 300.));
        }
        "arc" => {
            for i in 0..n {
                let t = std::f64::consts::PI * (1.0 + (i as f64 + 0.5) / nf);
                c.outer.push((1000. * t.cos(), 1000. * t.sin()));
            }
            c.outer.push((1001., 0.5));
            c.outer.push((-1001., 0.));
        }
        "rand" => {
            c.outer = vec![(-10., -10.), (810., -10.), (810., 810.), (-10., 810.)];
            for _ in 0..n {
                c.steiner.push((r.fr(0., 800.), r.fr(0., 800.)));
            }
        }
        "spike" => {
            c.outer = vec![(-10., -10.), (810., -10.), (811., 810.), (400., 5.), (-10., 809.)];
            for _ in 0..n {
                c.steiner.push((r.fr(0., 800.), r.fr(-9., 4.)));
            }
        }
        "zip" | "zipr" => {
            c.outer = vec![(-9., -9.), (9., -10.), (9.5, nf + 9.), (-9., nf + 10.)];
            c.holes.push(vec![(0., 0.), (0., nf), (-1e-3, nf / 2.)]);
            for i in 0..n {
                let y = i as f64 + 0.3 + 0.3 * r.f();
                let x = if fam == "zipr" {
                    r.fr(-5., 5.)
                } else if i % 2 == 0 {
                    0.5 + 0.1 * r.f()
                } else {
                    -0.5 - 0.1 * r.f()
                };
                if f64::abs(x) > 0.01 {
                    c.steiner.push((x, y));
                }
            }
        }
        "star" => {
            for i in 0..n {
                c.outer.push((i as f64, if i % 2 == 0 { 0. } else { 1e-3 * r.f() + 0.4 }));
            }
            c.outer.push((nf, nf));
        }
        "hillover" | "hilloverl" => {
            let sg = if fam == "hillover" { 1. } else { -1. };
            c.outer = (0..n)
                .map(|i| {
                    let t = -1. + 2. * i as f64 / (nf - 1.);
                    (t * 1e4 * sg, -t * t * 10.)
                })
                .collect();
            c.outer.push((1.2e4 * sg, 10.));
            c.outer.push((-1.2e4 * sg, 20.));
        }
        "fanflip" | "fanflip-hole" => {
            // an arc around a point, closed by its chord: when the chord is
            // inserted it crosses the edges from the centre to the whole arc
            let arc: Vec<P> = (0..n)
                .map(|i| {
                    let t = (i as f64 / (nf - 1.) - 0.5) * 1.5;
                    (1000. * t.cos(), 1000. * t.sin())
                })
                .collect();
            let centre = (r.fr(-1., 1.), r.fr(-1., 1.));
            if fam == "fanflip" {
                c.outer = arc;
                c.steiner.push(centre);
            } else {
                c.outer = vec![(-10., -1010.), (1010., -1020.), (1015., 1020.), (-11., 1030.), centre];
                c.holes.push(arc);
            }
        }
        "circle" => {
            for i in 0..n {
                let t = 2. * std::f64::consts::PI * i as f64 / nf;
                c.outer.push((1000. * t.cos(), 1000. * t.sin()));
            }
        }
        "comb-holes" => {
            let k = (nf.sqrt() / 2.) as i64 + 1;
            let e = k as f64 * 4. + 4.;
            c.outer = vec![(0., 0.), (e, 0.), (e, e), (0., e)];
            for i in 0..k {
                for j in 0..k {
                    let (x, y) = (2. + 4. * i as f64, 2. + 4. * j as f64);
                    c.holes.push(vec![(x, y), (x + 2. * r.f() + 0.1, y + 0.3), (x + 1., y + 2.), (x - 0.5, y + 1.)]);
                }
            }
        }
        "stairs" => {
            for i in 0..n / 2 {
                c.outer.push((i as f64, i as f64));
                c.outer.push((i as f64 + 1., i as f64));
            }
            c.outer.push((nf / 2., nf / 2. + 1.));
            c.outer.push((-1., nf / 2. + 1.));
            c.outer.push((-1., 0.));
        }
        "sawside" => {
            for i in 0..n / 2 {
                c.outer.push((100. + r.f(), i as f64 * 2.));
                c.outer.push((r.f(), i as f64 * 2. + 1.));
            }
            c.outer.push((-5., nf));
            c.outer.push((-5.5, -1.));
        }
        _ => unreachable!(),
    }
    c.map(case::rnd);
    if r.chance(1, 2) {
        c.outer.reverse();
    }
    c
}
pub const SLOW: &[&str] = &["bowl", "bowlin", "bowl4", "arc", "hill", "circle", "fanflip", "fanflip-hole"];
fn g_giant(r: &mut Rng, i: u64) -> Case {
    let fam = GIANTS[i as usize % GIANTS.len()];
    // parabolas and arcs of many points cost quadratic time: keep those smaller
    let slow = SLOW.contains(&fam);
    let hi = if slow { 9000 } else { 30000 };
    // now and then more points than 16 bits can number
    let huge = ["rand", "stairs", "comb"].contains(&fam) && (i / GIANTS.len() as u64) % 2 == 0;
    for k in 0.. {
        let n = if huge { 66_000 + r.below(6000) as usize } else { r.size(4000, hi) >> k.min(4) };
        let c = giant(r, fam, n);
        if c.invalid().is_none() {
            return c;
        }
    }
    unreachable!()
}
fn k_giant(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    match k_total(ctx, c, aux) {
        V::Held(_) => {}
        v => return v,
    }
    let t = held!(run::indices(c));
    let all = c.all();
    held!(tiling_of(c, &all, &t));
    let n = held!(oracle::delaunay(c, &all, &t));
    ctx.add("edges_tested", n);
    V::Held(true)
}

// ---- C09 ----
fn transform(c: &Case, r: &mut Rng) -> (Case, Vec<P>, String) {
    // returns the transformed case and, for each of its points, the original
    let mut d = c.clone();
    let mut log = vec![];
    // which map, applied to coordinates; all exact
    let k = r.below(6);
    let e = 2f64.powi(r.range(-8, 8) as i32);
    let f: Box<dyn Fn(P) -> P> = match k {
        0 => Box::new(|p| p),
        1 => Box::new(|p| (-p.0, p.1)),
        2 => Box::new(|p| (p.0, -p.1)),
        3 => Box::new(|p| (p.1, p.0)),
        4 => Box::new(|p| (-p.1, p.0)),
        _ => Box::new(move |p| (p.0 * e, p.1 * e)),
    };
    log.push(["as is", "mirrored in y axis", "mirrored in x axis", "transposed", "turned by 90 degrees", "scaled by a power of two"][k as usize].to_string());
    let ring = |v: &mut Vec<P>, r: &mut Rng| {
        let k = r.below(v.len() as u64) as usize;
        v.rotate_left(k);
        if r.chance(1, 2) {
            v.reverse();
        }
    };
    ring(&mut d.outer, r);
    for h in d.holes.iter_mut() {
        ring(h, r);
    }
    r.shuffle(&mut d.holes);
    r.shuffle(&mut d.steiner);
    let orig = d.all();
    d.map(&*f);
    (d, orig, log.join(", "))
}
fn k_invariance(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    let t = held!(run::indices(c));
    let all = c.all();
    held!(oracle::orientation(&all, &t));
    let u = unique(c, &all, &t);
    let g = run::geometry(&all, &t);
    let mut r = Rng::new(aux, 9);
    for _ in 0..4 {
        let (d, orig, log) = transform(c, &mut r);
        if !case::representable(&d.all()) {
            continue;
        }
        let t2 = held!(run::indices(&d));
        held!(oracle::orientation(&d.all(), &t2));
        ctx.add("descriptions_compared", 1);
        if t2.len() != t.len() {
            return V::Bad(format!("{} triangles instead of {} when {log} and listed in another order", t2.len(), t.len()));
        }
        if u {
            ctx.add("unique_compared", 1);
            if run::geometry(&orig, &t2) != g {
                return V::Bad(format!("different triangles when {log} and listed in another order"));
            }
        }
    }
    V::Held(t.len() >= 2 && u)
}

// ---- C10 ----
#[derive(Default)]
struct Nosy(u64);
impl Observer for Nosy {
    fn enter_point_event(&mut self, p: PointId, _: &Sweeper) {
        self.0 += p.as_usize() as u64;
    }
    fn exit_point_event(&mut self, p: PointId, _: &Sweeper) {
        self.0 += p.as_u32() as u64;
    }
    fn edge_event(&mut self, e: Edge, _: &Sweeper) {
        self.0 ^= e.p.as_usize() as u64;
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        self.0 += c.verify_triangles() as u64;
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.0 += c.illegal_triangles().len() as u64;
    }
    fn will_legalize(&mut self, t: TriangleId, _: &Sweeper) {
        self.0 += t.as_usize() as u64;
    }
    fn triangle_rotated(&mut self, t: TriangleId, _: TriangleId, c: &Sweeper) {
        if self.0 % 64 == 0 {
            self.0 += c.illegal_triangles().len() as u64;
        }
        self.0 += t.as_usize() as u64;
    }
}
/// panics at a chosen callback
struct Bomb(u64);
impl Bomb {
    fn tick(&mut self) {
        if self.0 == 0 {
            panic!("observer gives up");
        }
        self.0 -= 1;
    }
}
impl Observer for Bomb {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.tick();
    }
    fn exit_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.tick();
    }
    fn edge_event(&mut self, _: Edge, _: &Sweeper) {
        self.tick();
    }
    fn sweep_done(&mut self, _: &Sweeper) {
        self.tick();
    }
    fn finalized(&mut self, _: &Sweeper) {
        self.tick();
    }
    fn will_legalize(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick();
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick();
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, _: &Sweeper) {
        self.tick();
    }
    fn legalized(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick();
    }
}
/// triangulates at some callbacks
struct Nest {
    cases: Vec<(Case, Vec<u32>)>,
    at: HashSet<u64>,
    n: u64,
    wrong: usize,
    runs: usize,
}
impl Nest {
    fn tick(&mut self) {
        self.n += 1;
        if self.at.contains(&self.n) {
            for (c, want) in &self.cases {
                self.runs += 1;
                self.wrong += (run_on(run::cdt(c)) != *want) as usize;
            }
        }
    }
}
impl Observer for Nest {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.tick();
    }
    fn exit_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.tick();
    }
    fn edge_event(&mut self, _: Edge, _: &Sweeper) {
        self.tick();
    }
    fn sweep_done(&mut self, _: &Sweeper) {
        self.tick();
    }
    fn finalized(&mut self, _: &Sweeper) {
        self.tick();
    }
    fn will_legalize(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick();
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick();
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, _: &Sweeper) {
        self.tick();
    }
    fn legalized(&mut self, _: TriangleId, _: &Sweeper) {
        self.tick();
    }
}
fn run_on(cdt: CDT<()>) -> Vec<u32> {
    cdt.triangulate().triangle_list_indices()
}
/// an input that shares much with c: as many points, mostly the same ones
fn near(r: &mut Rng, c: &Case) -> Option<Case> {
    for _ in 0..4 {
        let mut d = c.clone();
        match r.below(5) {
            0 => {
                let k = r.below(d.outer.len() as u64) as usize;
                d.outer.rotate_left(k);
            }
            1 => d.outer.reverse(),
            2 => {
                let (lo, hi) = gen::bbox(&c.all());
                if r.chance(1, 2) {
                    d.map(|p| (lo.0 + (hi.0 - p.0), p.1));
                } else {
                    d.map(|p| (p.0, lo.1 + (hi.1 - p.1)));
                }
            }
            _ => {
                // one point moved half way to another
                let all = c.all();
                let q = all[r.below(all.len() as u64) as usize];
                let t = *r.pick(&[0.5, 0.1, 1e-3]);
                let k = r.below(all.len() as u64) as usize;
                let mut i = 0;
                d.map(|p| {
                    i += 1;
                    if i - 1 == k { (p.0 + t * (q.0 - p.0), p.1 + t * (q.1 - p.1)) } else { p }
                });
            }
        }
        d.map(case::rnd);
        if d != *c && d.invalid().is_none() {
            return Some(d);
        }
    }
    None
}
/// does a type go to and be used from other threads? (also where the answer is no, this compiles)
struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> No for Probe<T> {}
struct ProbeSend<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> No for ProbeSend<T> {}
impl<T: ?Sized + Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}
const SHARED: bool = <Probe<CDT<()>>>::SYNC && <ProbeSend<CDT<()>>>::SEND;
/// shared only where SHARED says it may be
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}
fn auto_traits() -> Result<(), String> {
    use poly2tri_rs::loader::LoaderError;
    let t = [
        ("Builder is not Send", <ProbeSend<Builder<String>>>::SEND),
        ("Builder is not Sync", <Probe<Builder<String>>>::SYNC),
        ("CDT is not Send", <ProbeSend<CDT<String>>>::SEND),
        ("CDT is not Sync", <Probe<CDT<String>>>::SYNC),
        ("Point is not Send", <ProbeSend<Point>>::SEND),
        ("TriangleId is not Send", <ProbeSend<TriangleId>>::SEND),
    ];
    let _ = std::any::type_name::<LoaderError>();
    match t.iter().find(|x| !x.1) {
        Some(x) => Err(format!("{}: it cannot be handed to another thread", x.0)),
        None => Ok(()),
    }
}

/// many threads at work on the same and on other inputs, under a race detector
fn k_threads(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    use poly2tri_rs::loader::{Loader, PlainFileLoader};
    held!(auto_traits());
    let mut r = Rng::new(aux, 101);
    let other = gen::mix(&mut r, aux % 12, 40, ANY);
    let path = format!("{}/threads-{}.dat", ctx.scratch, std::process::id());
    let text: String = c.outer.iter().map(|p| format!("{:?} {:?}\n", p.0, p.1)).collect();
    std::fs::write(&path, text).unwrap();
    let k = 2 + r.below(5) as usize;
    // nothing runs before the threads do: whatever is set up at first use is set up by them
    let gate = std::sync::Barrier::new(k);
    let shared = Force(run::cdt(c));
    // a builder made here, finished and run there, its result read by a third
    let jobs: Vec<u64> = (0..k).map(|j| if j == 0 { 0 } else { r.below(6) }).collect();
    let res: Vec<(u64, Result<Vec<u32>, String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|&job| {
                let (gate, shared, other, path) = (&gate, &shared, &other, &path);
                let moved = if job == 3 { Some(Force(run::cdt(c))) } else { None };
                s.spawn(move || {
                    gate.wait();
                    let v = guard(|| match job {
                        1 => run_on(run::cdt(other)),
                        2 => {
                            let mut n = Nosy::default();
                            run::cdt(c).triangulate_with_observer(&mut n).triangle_list_indices()
                        }
                        3 if SHARED => {
                            // taken whole, not only what is in it
                            let moved = moved;
                            run_on(moved.unwrap().take())
                        }
                        4 => {
                            let _ = guard(|| run::cdt(other).triangulate_with_observer(&mut Bomb(7)).count());
                            let mut t = run::cdt(c).triangulate();
                            let n = t.by_ref().take(2).count();
                            let v = t.triangle_list_indices();
                            if t.count() + n != v.len() / 3 {
                                panic!("the iterator loses triangles");
                            }
                            v
                        }
                        5 => match PlainFileLoader::default().load(path) {
                            Ok(b) => b.build().triangulate().triangle_list_indices(),
                            Err(e) => panic!("{e}"),
                        },
                        _ if SHARED => run_on(shared.get().clone()),
                        _ => run_on(run::cdt(c)),
                    });
                    (job, v)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let _ = std::fs::remove_file(&path);
    let base = held!(guard(|| run_on(run::cdt(c))));
    let ob = held!(guard(|| run_on(run::cdt(&other))));
    let mut plain = c.clone();
    plain.holes.clear();
    plain.steiner.clear();
    let lb = held!(guard(|| run_on(run::cdt(&plain))));
    for (job, v) in res {
        let v = held!(v);
        let want = match job {
            1 => &ob,
            5 => &lb,
            _ => &base,
        };
        if v != *want {
            return V::Bad(format!("triangulating on several threads at once changes the result (job {job})"));
        }
        ctx.add("concurrent_runs_compared", 1);
    }
    V::Held(base.len() >= 6)
}
fn k_determinism(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    let base = held!(guard(|| run_on(run::cdt(c))));
    let mut r = Rng::new(aux, 10);
    // something else in between must not matter
    let other = gen::mix(&mut r, aux % 12, 40, ANY);
    let ob = held!(guard(|| run_on(run::cdt(&other))));
    let again = held!(guard(|| run_on(run::cdt(c))));
    if again != base {
        return V::Bad("a second triangulation of the same input differs".into());
    }
    let cdt = run::cdt(c);
    let cl = cdt.clone();
    let a = held!(guard(|| run_on(cl)));
    let mut n = Nosy::default();
    let b = held!(guard(|| cdt.triangulate_with_observer(&mut n).triangle_list_indices()));
    if a != base {
        return V::Bad("a cloned CDT gives a different result".into());
    }
    if b != base {
        return V::Bad("attaching an observer changes the result".into());
    }
    ctx.add("repeats_compared", 3);
    // nor a similar input, whose result from a fresh thread is the reference
    if let Some(d) = near(&mut r, c) {
        let want = held!(std::thread::scope(|s| s.spawn(|| guard(|| run_on(run::cdt(&d)))).join().unwrap()));
        let x = held!(guard(|| run_on(run::cdt(&d))));
        if x != want {
            return V::Bad(format!("the result for a similar input differs after this one ({:?} ...)", d.all().first()));
        }
        let x = held!(guard(|| run_on(run::cdt(c))));
        if x != base {
            return V::Bad("the result differs after a similar input".into());
        }
        ctx.add("similar_inputs_between", 1);
    }
    // nor a run that ended early
    if aux % 3 == 0 {
        let bomb = guard(|| run::cdt(if aux % 2 == 0 { &other } else { c }).triangulate_with_observer(&mut Bomb(r.size(1, 600) as u64 - 1)).triangle_list_indices());
        ctx.add("runs_aborted_between", bomb.is_err() as usize);
        let x = held!(guard(|| run_on(run::cdt(c))));
        if x != base {
            return V::Bad("the result differs after a run whose observer panicked".into());
        }
    }
    // nor being called from an observer
    if aux % 4 == 1 {
        let total = 4 * c.n() as u64;
        let mut nest = Nest {
            cases: vec![(c.clone(), base.clone()), (other.clone(), ob.clone())],
            at: (0..4).map(|_| 1 + r.below(total)).collect(),
            n: 0,
            wrong: 0,
            runs: 0,
        };
        let case = c.clone();
        let mut job = move || {
            let v = guard(|| run::cdt(&case).triangulate_with_observer(&mut nest).triangle_list_indices());
            (v, nest.wrong, nest.runs)
        };
        let (v, wrong, runs) = if cfg!(miri) {
            job()
        } else {
            // a lock would block for ever
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || tx.send(job()));
            match rx.recv_timeout(std::time::Duration::from_secs(100)) {
                Ok(x) => x,
                Err(_) => return V::Bad("a triangulation from an observer's callback does not return".into()),
            }
        };
        if held!(v) != base {
            return V::Bad("the result differs when the observer triangulates, too".into());
        }
        if wrong > 0 {
            return V::Bad("a triangulation from an observer's callback gives a different result".into());
        }
        ctx.add("nested_runs_compared", runs);
    }
    if !cfg!(miri) && aux % 4 == 0 || cfg!(miri) {
        let k = if cfg!(miri) { 3 } else { 6 };
        let gate = std::sync::Barrier::new(k);
        let shared = Force(run::cdt(c));
        let res: Vec<Result<(Vec<u32>, bool), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..k)
                .map(|j| {
                    let (gate, shared, other) = (&gate, &shared, &other);
                    s.spawn(move || {
                        gate.wait();
                        guard(|| {
                            if j % 3 == 2 {
                                (run_on(run::cdt(other)), true)
                            } else if SHARED {
                                (run_on(shared.get().clone()), false)
                            } else {
                                (run_on(run::cdt(c)), false)
                            }
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for x in res {
            let (v, o) = held!(x);
            if v != if o { &ob[..] } else { &base[..] } {
                return V::Bad("triangulating on several threads at once changes the result".into());
            }
            ctx.add("concurrent_runs_compared", 1);
        }
    }
    V::Held(base.len() >= 6)
}
/// digest per case, compared between processes by the driver
fn k_digest(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    let v = held!(guard(|| run::cdt(c).triangulate().triangle_list_indices()));
    let mut h = 0xcbf29ce484222325u64;
    for x in &v {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    // the same generated case can differ in last places between builds: say which input it was
    let mut k = 0xcbf29ce484222325u64;
    for p in c.all().iter().chain(&c.steiner) {
        for x in [p.0, p.1] {
            k = (k ^ (x as f64).to_bits()).wrapping_mul(0x100000001b3);
            k ^= k >> 29;
        }
    }
    println!("D\t{aux}-{k:x}\t{h:x}");
    ctx.add("digests", 1);
    V::Held(v.len() >= 6)
}

// ---- C11 ----
#[derive(Default)]
struct Proto {
    all: Vec<P>,
    err: Option<String>,
    open: Option<u32>,
    last: Option<u32>,
    seen: Vec<u32>,
    edges: Vec<(u32, u32)>,
    legal: Option<TriangleId>,
    sweep_done: u32,
    finalized: u32,
    events: usize,
    rot: usize,
    legs: usize,
    /// point whose event is over, edges may follow
    current: Option<u32>,
}
impl Proto {
    fn fail(&mut self, s: String) {
        if self.err.is_none() {
            self.err = Some(s);
        }
    }
    fn alive(&mut self, what: &str) {
        self.events += 1;
        if self.sweep_done > 0 {
            self.fail(format!("{what} after sweep_done"));
        }
    }
    fn key(&self, p: u32) -> (f64, f64) {
        let q = self.all[p as usize];
        (q.1, q.0)
    }
}
impl Observer for Proto {
    fn enter_point_event(&mut self, p: PointId, _: &Sweeper) {
        self.alive("enter_point_event");
        let p = p.as_u32();
        if self.open.is_some() || self.legal.is_some() {
            self.fail(format!("enter_point_event({p}) inside another event"));
        }
        if p as usize >= self.all.len() {
            return self.fail(format!("event for point {p}, which is not an input"));
        }
        if let Some(l) = self.last {
            if !(self.key(l) < self.key(p)) {
                self.fail(format!("point {p} processed after the higher point {l}"));
            }
        }
        self.open = Some(p);
        self.last = Some(p);
        self.current = None;
        self.seen.push(p);
    }
    fn exit_point_event(&mut self, p: PointId, _: &Sweeper) {
        self.alive("exit_point_event");
        let p = p.as_u32();
        if self.open != Some(p) || self.legal.is_some() {
            self.fail(format!("exit_point_event({p}) closes {:?}", self.open));
        }
        self.open = None;
        self.current = Some(p);
    }
    fn edge_event(&mut self, e: Edge, _: &Sweeper) {
        self.alive("edge_event");
        let (p, q) = (e.p.as_u32(), e.q.as_u32());
        if self.open.is_some() || self.legal.is_some() {
            self.fail(format!("edge_event({p},{q}) inside another event"));
        }
        if self.current != Some(q) {
            self.fail(format!("edge ({p},{q}) reported after point {:?}", self.current));
        }
        if p as usize >= self.all.len() || q as usize >= self.all.len() {
            return self.fail(format!("edge ({p},{q}) names a point that is not an input"));
        }
        if !(self.key(p) < self.key(q)) {
            self.fail(format!("edge ({p},{q}): the first end is not the lower one"));
        }
        self.edges.push((p.min(q), p.max(q)));
    }
    fn sweep_done(&mut self, _: &Sweeper) {
        if self.finalized > 0 || self.open.is_some() || self.legal.is_some() {
            self.fail("sweep_done out of order".into());
        }
        self.sweep_done += 1;
    }
    fn finalized(&mut self, _: &Sweeper) {
        if self.sweep_done != 1 {
            self.fail("finalized without sweep_done".into());
        }
        self.finalized += 1;
    }
    fn will_legalize(&mut self, t: TriangleId, _: &Sweeper) {
        self.alive("will_legalize");
        self.legs += 1;
        if self.legal.is_some() {
            self.fail("will_legalize inside another legalization".into());
        }
        if self.open.is_none() && self.current.is_none() {
            self.fail("will_legalize outside of a point's events".into());
        }
        self.legal = Some(t);
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        self.alive("legalize_step");
        if self.legal.is_none() {
            self.fail("legalize_step outside of a legalization".into());
        }
    }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, _: &Sweeper) {
        self.alive("triangle_rotated");
        self.rot += 1;
        if self.legal.is_none() {
            self.fail("triangle_rotated outside of a legalization".into());
        }
        if t == o || t.invalid() || o.invalid() {
            self.fail(format!("triangle_rotated({t:?}, {o:?})"));
        }
    }
    fn legalized(&mut self, t: TriangleId, _: &Sweeper) {
        self.alive("legalized");
        if self.legal != Some(t) {
            self.fail(format!("legalized({t:?}) closes {:?}", self.legal));
        }
        self.legal = None;
    }
}
fn k_protocol(ctx: &mut Ctx, c: &Case, _: u64) -> V {
    let mut o = Proto { all: c.all(), ..Default::default() };
    let r = run::indices_observed(c, &mut o);
    if let Some(e) = o.err {
        return V::Bad(e);
    }
    held!(r);
    if o.sweep_done != 1 || o.finalized != 1 {
        return V::Bad(format!("sweep_done {} times, finalized {} times", o.sweep_done, o.finalized));
    }
    if o.open.is_some() || o.legal.is_some() {
        return V::Bad("the run ended inside an event".into());
    }
    // every point but the lowest exactly once (the order is strictly increasing)
    if o.seen.len() + 1 != o.all.len() {
        return V::Bad(format!("{} point events for {} points", o.seen.len(), o.all.len()));
    }
    let low = (0..o.all.len() as u32)
        .min_by(|&a, &b| {
            let k = |p: u32| (o.all[p as usize].1, o.all[p as usize].0);
            k(a).partial_cmp(&k(b)).unwrap()
        })
        .unwrap();
    if o.seen.contains(&low) {
        return V::Bad("an event for the lowest point, which starts the sweep".into());
    }
    let want = oracle::constraint_set(c);
    let got: HashSet<(u32, u32)> = o.edges.iter().copied().collect();
    if got.len() != o.edges.len() {
        return V::Bad("a segment is reported twice".into());
    }
    if got != want {
        return V::Bad(format!("{} segments reported, {} given, {} in common", got.len(), want.len(), got.intersection(&want).count()));
    }
    ctx.add("events", o.events);
    ctx.add("point_events", o.seen.len());
    ctx.add("edge_events", o.edges.len());
    ctx.add("legalizations", o.legs);
    ctx.add("rotations", o.rot);
    V::Held(o.rot > 0)
}

// ---- C13 ----
/// a decimal number that rounds to `v`, but only just: next to the middle between it and a neighbour
#[allow(clippy::unnecessary_cast)]
fn near_tie(v: poly2tri_rs::Float, up: bool) -> String {
    let a = v.abs();
    let b = poly2tri_rs::Float::from_bits(if up { a.to_bits() + 1 } else { a.to_bits() - 1 });
    let half = (b as f64 - a as f64).abs() / 2.;
    const N: usize = 250;
    let digits = |x: f64| format!("{x:.N$}").bytes().filter(|b| *b != b'.').map(|b| (b - b'0') as i32).collect::<Vec<_>>();
    let (mut d, h) = (digits(a as f64), digits(half));
    let h = [vec![0; d.len() - h.len()], h].concat();
    d.insert(0, 0);
    let mut carry = 0;
    for i in (0..h.len()).rev() {
        let x = d[i + 1] + carry + if up { h[i] } else { -h[i] };
        carry = x.div_euclid(10);
        d[i + 1] = x.rem_euclid(10);
    }
    d[0] += carry;
    let point = d.len() - N;
    let last = d.iter().rposition(|x| *x != 0).unwrap().max(point);
    if up {
        // below the middle
        let mut i = last;
        while d[i] == 0 {
            d[i] = 9;
            i -= 1;
        }
        d[i] -= 1;
    }
    let text = |d: &[i32]| d.iter().map(|x| (b'0' + *x as u8) as char).collect::<String>();
    let sign = if v < 0. { "-" } else { "" };
    let tail = if up { "9".repeat(30) } else { "0".repeat(30) + "1" };
    format!("{sign}{}.{}{tail}", text(&d[1..point]), text(&d[point..=last]))
}
fn fmt_num(r: &mut Rng, v: f64) -> String {
    #[allow(clippy::unnecessary_cast)]
    let v = v as poly2tri_rs::Float;
    let mut s = match r.below(5) {
        0 => format!("{v:e}"),
        1 => format!("{v:?}"),
        2 => format!("{v:E}"),
        _ => format!("{v}"),
    };
    if r.chance(1, 8) && !s.starts_with('-') {
        s.insert(0, '+');
    }
    if r.chance(1, 8) && !s.contains(['e', 'E', '.']) {
        s.push_str(".0");
    }
    if r.chance(1, 8) {
        // the same decimal number written otherwise
        let (sign, t) = match s.strip_prefix(['-', '+']) {
            Some(t) => (s[..1].to_string(), t.to_string()),
            None => (String::new(), s.clone()),
        };
        let (m, e) = match t.find(['e', 'E']) {
            Some(k) => (t[..k].to_string(), t[k..].to_string()),
            None => (t.clone(), String::new()),
        };
        let point = m.contains('.');
        s = match r.below(8) {
            0 if m.starts_with("0.") => format!("{sign}{}{e}", &m[1..]),
            1 if point => format!("{sign}{m}{}{e}", "0".repeat(r.size(1, 400))),
            2 => format!("{sign}{}{m}{e}", "0".repeat(r.size(1, 400))),
            3 if !point => format!("{sign}{m}.{e}"),
            4 if e.is_empty() => format!("{sign}{m}{}", ["e0", "E0", "e+0", "e-0", "E+00"][r.below(5) as usize]),
            5 if e.len() > 1 && !e.contains('-') => format!("{sign}{m}{}+{}", &e[..1], &e[1..]),
            // all digits there are
            6 if v.abs() > 1e-30 && v.abs() < 1e30 => format!("{v:.200}"),
            7 if v.abs() > 1e-30 && v.abs() < 1e30 => near_tie(v, r.chance(1, 2)),
            _ => s,
        };
    }
    s
}
fn loader(ctx: &mut Ctx, c: &Case, aux: u64) -> Result<bool, String> {
    use poly2tri_rs::loader::{Loader, LoaderError, PlainFileLoader};
    let mut r = Rng::new(aux, 13);
    let eol = if r.chance(1, 4) { "\r\n" } else { "\n" };
    let blanks = r.chance(1, 3);
    let mixed = r.chance(1, 10);
    let mut text = String::new();
    let line = |r: &mut Rng, p: P| {
        let long = if r.chance(1, 400) { " ".repeat(r.size(100, 9000)) } else { "\t ".into() };
        let sep = *r.pick(&[" ", "  ", "\t", " \t ", &long]);
        let eol = if mixed && r.chance(1, 2) { "\n" } else { eol };
        let lead = if r.chance(1, 10) { " " } else { "" };
        let trail = if r.chance(1, 10) { " " } else { "" };
        format!("{lead}{}{sep}{}{trail}{eol}", fmt_num(r, p.0), fmt_num(r, p.1))
    };
    // sections: the polygon first, then holes and Steiner blocks in any order
    let blank = |r: &mut Rng, t: &mut String| {
        if blanks && r.chance(1, 6) {
            t.push_str(if r.chance(1, 3) { "  " } else { "" });
            t.push_str(eol);
        }
    };
    for &p in &c.outer {
        blank(&mut r, &mut text);
        text.push_str(&line(&mut r, p));
    }
    let mut sections: Vec<(bool, Vec<P>)> = c.holes.iter().map(|h| (true, h.clone())).collect();
    let mut st = c.steiner.clone();
    if !st.is_empty() && r.chance(1, 3) {
        let k = r.below(st.len() as u64) as usize;
        let tail = st.split_off(k);
        sections.push((false, st));
        st = tail;
    }
    if !st.is_empty() || r.chance(1, 8) {
        sections.push((false, st));
    }
    if r.chance(1, 3) {
        r.shuffle(&mut sections);
    }
    for (hole, v) in &sections {
        blank(&mut r, &mut text);
        text.push_str(if *hole { "HOLE" } else { "STEINER" });
        text.push_str(eol);
        for &p in v {
            text.push_str(&line(&mut r, p));
            blank(&mut r, &mut text);
        }
    }
    if r.chance(1, 4) {
        while text.ends_with(['\n', '\r']) {
            text.pop();
        }
    }
    // large files: blanks between the lines up to some megabytes
    if r.chance(1, 60) {
        let most = if r.chance(1, 10) { 5_000_000 } else { 300_000 };
        let k = r.size(60_000, most);
        let lines: Vec<&str> = text.split_inclusive('\n').collect();
        let at = r.below(lines.len() as u64) as usize;
        let pad = if r.chance(1, 2) { format!("{}{eol}", " ".repeat(k)) } else { eol.repeat(k) };
        text = format!("{}{pad}{}", lines[..at].concat(), lines[at..].concat());
        ctx.add("large_files", 1);
    }
    let want: Vec<P> = {
        let mut w = c.outer.clone();
        for (_, v) in sections.iter().filter(|s| s.0) {
            w.extend(v);
        }
        for (_, v) in sections.iter().filter(|s| !s.0) {
            w.extend(v);
        }
        w
    };
    let reference = {
        let mut b = Builder::new(case::pts(&c.outer));
        for (_, v) in sections.iter().filter(|s| s.0) {
            b = b.add_hole(case::pts(v));
        }
        for (_, v) in sections.iter().filter(|s| !s.0) {
            b = b.add_steiner_points(case::pts(v));
        }
        guard(|| b.build().triangulate().triangle_list_indices())?
    };
    let name = match aux % 9 {
        0 => "lö ad ★",
        1 => "load.HOLE",
        2 => "./././load",
        3 => "#load%20",
        _ => "load",
    };
    let path = format!("{}/{name}-{}.dat", ctx.scratch, std::process::id());
    std::fs::write(&path, &text).unwrap();
    let load = |p: &str| guard(|| PlainFileLoader::default().load(p));
    // the same loader object is reusable
    let mut l = PlainFileLoader::default();
    for k in 0..2 {
        let b = guard(|| l.load(&path))?.map_err(|e| format!("a well-formed file is refused: {e} {text:?}"))?;
        let t = guard(|| b.build().triangulate())?;
        if t.points().len() != want.len() {
            return Err(format!("{} points loaded of {}: {text:?}", t.points().len(), want.len()));
        }
        for (i, p) in want.iter().enumerate() {
            if !same(*p, &t.points()[i]) {
                return Err(format!("point {i} loaded as {:?}, written as {p:?}", case::xy(&t.points()[i])));
            }
        }
        if t.triangle_list_indices() != reference {
            return Err(format!("the loaded polygon triangulates differently from the same polygon given directly (load {k})"));
        }
    }
    ctx.add("files_loaded", 2);
    ctx.add("points_loaded", want.len());
    if std::fs::read(&path).map_or(true, |b| b != text.as_bytes()) {
        return Err("loading a file changes it".into());
    }
    if r.chance(1, 3) {
        loader_paths(ctx, &path, &text, &want, &mut r)?;
    }
    let lines: Vec<&str> = text.lines().collect();
    // the same path with another content of the same length
    if r.chance(1, 2) {
        let v: String = c.outer.iter().rev().map(|p| format!("{:?} {:?}\n", p.0, p.1)).collect();
        let u: String = c.outer.iter().map(|p| format!("{:?} {:?}\n", p.0, p.1)).collect();
        let keep = r.chance(1, 2);
        for k in 0..3 {
            std::fs::write(&path, if k % 2 == 0 { &u } else { &v }).unwrap();
            let b = guard(|| if keep { l.load(&path) } else { PlainFileLoader::default().load(&path) })?;
            let t = guard(|| b.map(|b| b.build().triangulate()))?.map_err(|e| format!("a well-formed file is refused: {e}"))?;
            let n = c.outer.len();
            let as_f32 = |p: P| (p.0 as poly2tri_rs::Float, p.1 as poly2tri_rs::Float);
            for i in 0..n {
                let w = as_f32(c.outer[if k % 2 == 0 { i } else { n - 1 - i }]);
                if t.points().len() != n || t.points()[i].x != w.0 || t.points()[i].y != w.1 {
                    return Err("after a file was changed the loader does not give its new content".into());
                }
            }
        }
        ctx.add("files_rewritten", 3);
    }
    // files of another structure: no panic
    for _ in 0..2 {
        let mut v: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
        let mut bytes = vec![];
        match r.below(9) {
            0 => v.clear(),
            1 => v = v.into_iter().filter(|l| l.split_whitespace().count() != 2).collect(),
            2 => v.truncate(r.below(v.len() as u64 + 1) as usize),
            3 => {
                let i = r.below(v.len() as u64) as usize;
                v.insert(i, v[i].clone());
            }
            4 => v.push(v[0].clone()),
            5 => v.insert(0, ["HOLE", "STEINER"][r.below(2) as usize].into()),
            6 => v.extend(["HOLE".to_string(), "HOLE".into(), "1 2".into(), "HOLE".into(), "STEINER".into()]),
            7 => {
                let i = r.below(v.len() as u64) as usize;
                v[i] = ["nan nan", "inf 0", "-infinity 1e999", "1 2 3", "0 0 q", "NaN -0"][r.below(6) as usize].into();
            }
            _ => {
                for _ in 0..r.below(300) {
                    bytes.push(*r.pick(b"0123456789 \n\r\t.-+eEHOLSTINR\0\xc3\xa9\xff#"));
                }
            }
        }
        if bytes.is_empty() {
            bytes = v.join("\n").into_bytes();
            if r.chance(1, 3) {
                bytes.truncate(r.below(bytes.len() as u64 + 1) as usize);
            }
        }
        std::fs::write(&path, &bytes).unwrap();
        match load(&path) {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => drop(format!("{e} {e:?}")),
            Err(e) => return Err(format!("the loader panics: {e}; {:?}", String::from_utf8_lossy(&bytes[..bytes.len().min(300)]))),
        }
        ctx.add("odd_files_survived", 1);
    }
    // damaged files: an error, never a panic and never a silent result
    let data: Vec<usize> = lines
        .iter()
        .enumerate()
        .filter(|(_, l)| l.split_whitespace().count() == 2)
        .map(|(i, _)| i)
        .collect();
    let join = |v: &[String]| v.join("\n").into_bytes();
    for _ in 0..3 {
        let mut v: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
        let i = *r.pick(&data);
        let k = r.below(13);
        let w: Vec<String> = v[i].split_whitespace().map(|s| s.to_string()).collect();
        let mut bytes = None;
        let what = match k {
            0 => {
                v[i] = w[0].clone();
                "one number on a line"
            }
            1 => {
                v[i] = format!("{} x{}", w[0], w[1]);
                "a word for y"
            }
            2 => {
                v[i] = format!("{}q {}", w[0], w[1]);
                "a word for x"
            }
            3 => {
                v[i] = format!("{},{}", w[0], w[1]);
                "a comma for the blank"
            }
            4 => {
                v[i] = "HOLES".into();
                "an unknown keyword"
            }
            5 => {
                let mut b = join(&v);
                let at = r.below(b.len() as u64) as usize;
                b.insert(at, 0xff);
                bytes = Some(b);
                "a byte that is not UTF-8"
            }
            6 => {
                v[i] = format!("{} {}", w[0].replace(['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'], "-"), w[1]);
                "no digits"
            }
            7 => {
                // other languages' numbers
                let k = r.below(2) as usize;
                let x = &w[k];
                let y = match r.below(6) {
                    0 => format!("{x},5"),
                    1 => format!("{x}f"),
                    2 => format!("0x{}", x.trim_start_matches(['-', '+'])),
                    3 => format!("{x}d0"),
                    4 => format!("1_0{}", x.trim_start_matches(['-', '+'])),
                    _ => format!("({x}"),
                };
                v[i] = if k == 0 { format!("{y} {}", w[1]) } else { format!("{} {y}", w[0]) };
                "a number in another notation"
            }
            8 => {
                v.insert(i, ["STEINERS", "POLYGON", "HOLE:", "-", "END"][r.below(5) as usize].into());
                "a line that is no keyword"
            }
            9 => {
                v.insert(i, ["hole", "Hole", "steiner", "Steiner"][r.below(4) as usize].into());
                "a keyword in lower case"
            }
            10 => {
                // other formats' comments and decorations
                let sign = ["#", "//", ";", "%", "--", "!", "*", "\"", "/*", "REM"][r.below(10) as usize];
                let t = match r.below(4) {
                    0 => sign.to_string(),
                    1 => format!("{sign} {} {}", w[0], w[1]),
                    2 => format!("{sign}{} {}", w[0], w[1]),
                    _ => format!("{sign} outline"),
                };
                let at = *r.pick(&[0, i, v.len()]);
                v.insert(at, t);
                "a comment line"
            }
            _ => {
                // any one character added or changed so that it is no number
                let j = r.below(2) as usize;
                let mut t: Vec<char> = w[j].chars().collect();
                let ch = *r.pick(&['#', 'x', 'e', '.', '-', '+', ',', ':', '_', '\'', '\u{660}', '\u{2212}', '\u{ff11}', '\u{bd}', '\0', '\u{7f}', 'E', '/', '*', '=']);
                let at = r.below(t.len() as u64 + 1) as usize;
                if r.chance(1, 2) || at == t.len() {
                    t.insert(at, ch);
                } else {
                    t[at] = ch;
                }
                let t: String = t.into_iter().collect();
                if decimal(&t) {
                    continue;
                }
                v[i] = if j == 0 { format!("{t} {}", w[1]) } else { format!("{} {t}", w[0]) };
                "a wrong character in a number"
            }
        };
        std::fs::write(&path, bytes.unwrap_or_else(|| join(&v))).unwrap();
        match load(&path)? {
            Ok(_) => return Err(format!("a file with {what} is accepted")),
            Err(e) => {
                let _ = e.to_string();
                ctx.add("damaged_files_refused", 1);
            }
        }
    }
    std::fs::remove_file(&path).unwrap();
    for (p, what) in [(path.as_str(), "missing file"), (ctx.scratch.as_str(), "directory"), ("", "empty path")] {
        match guard(|| PlainFileLoader::default().load(p))? {
            Ok(_) => return Err(format!("{what} is accepted")),
            Err(LoaderError::Io(_)) => {}
            Err(e) => return Err(format!("{what}: {e} instead of an IO error")),
        }
    }
    ctx.add("unreadable_paths_refused", 3);
    Ok(c.n() > 3)
}
/// the same content through every kind of path: a link, a detour, a pipe, a file one may
/// only read; and from several threads at once
fn loader_paths(ctx: &mut Ctx, path: &str, text: &str, want: &[P], r: &mut Rng) -> Result<(), String> {
    use poly2tri_rs::loader::{Loader, PlainFileLoader};
    let check = |p: &str, want: &[P], what: &str| -> Result<(), String> {
        let b = guard(|| PlainFileLoader::default().load(p))?;
        let b = b.map_err(|e| format!("a well-formed file is refused {what}: {e}"))?;
        let t = guard(|| b.build().triangulate())?;
        if t.points().len() != want.len() {
            return Err(format!("{} points loaded of {} {what}", t.points().len(), want.len()));
        }
        if let Some(i) = (0..want.len()).find(|&i| !same(want[i], &t.points()[i])) {
            return Err(format!("point {i} loaded {what} as {:?}, written as {:?}", case::xy(&t.points()[i]), want[i]));
        }
        Ok(())
    };
    match r.below(4) {
        0 => {
            let link = format!("{path}.link");
            let _ = std::fs::remove_file(&link);
            std::os::unix::fs::symlink(path, &link).unwrap();
            let back = check(&link, want, "through a symbolic link");
            std::fs::remove_file(&link).unwrap();
            back?;
            ctx.add("files_by_link", 1);
            // from the working directory up to the root and down again
            if let (Ok(cwd), true) = (std::env::current_dir(), path.starts_with('/')) {
                let rel = format!("{}{}", "../".repeat(cwd.components().count() - 1), &path[1..]);
                check(&rel, want, "by a relative path")?;
                ctx.add("files_by_relative_path", 1);
            }
        }
        1 => {
            use std::io::Write;
            use std::os::fd::AsRawFd;
            let (rd, mut wr) = std::io::pipe().unwrap();
            let body = text.as_bytes().to_vec();
            let piece = r.size(1, 70_000).max(body.len() / 2000);
            let h = std::thread::spawn(move || {
                for b in body.chunks(piece) {
                    if wr.write_all(b).is_err() {
                        break;
                    }
                }
            });
            let back = check(&format!("/proc/self/fd/{}", rd.as_raw_fd()), want, "from a pipe");
            drop(rd);
            let _ = h.join();
            back?;
            ctx.add("files_by_pipe", 1);
        }
        2 => {
            // a file without write permission, as a user who has no other rights
            use std::os::fd::AsRawFd;
            use std::os::unix::fs::PermissionsExt;
            extern "C" {
                fn setfsuid(uid: u32) -> i32;
            }
            std::fs::set_permissions(path, std::fs::Permissions::from_mode(0o444)).unwrap();
            // named by its descriptor, the scratch directory being closed to that user
            let fd = std::fs::File::open(path).unwrap();
            let name = format!("/proc/self/fd/{}", fd.as_raw_fd());
            unsafe { setfsuid(65534) };
            let readable = std::fs::File::open(&name).is_ok();
            let writable = std::fs::File::options().append(true).open(&name).is_ok();
            let back = if readable && !writable { check(&name, want, "without write permission") } else { Ok(()) };
            unsafe { setfsuid(0) };
            std::fs::set_permissions(path, std::fs::Permissions::from_mode(0o644)).unwrap();
            back?;
            ctx.add(if readable && !writable { "files_read_only" } else { "read_only_not_possible" }, 1);
        }
        _ => {
            // several threads, each with a file of its own
            let n = 2 + r.below(3) as usize;
            let mut files = vec![];
            for k in 0..n {
                let dx = k as f64;
                let m = r.size(3, 400);
                let v: Vec<P> = (0..m).map(|i| (i as f64 + dx * 0.5, (i * i) as f64 * 0.125 + dx)).collect();
                let name = format!("{path}.{k}");
                let body: String = v.iter().map(|p| format!("{:?} {:?}\n", p.0, p.1)).collect();
                std::fs::write(&name, body).unwrap();
                files.push((name, v));
            }
            let bad = std::thread::scope(|sc| {
                let hs: Vec<_> = files
                    .iter()
                    .map(|(f, v)| sc.spawn(move || (0..6).try_for_each(|_| load_points(f, v))))
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(Err("panic".into()))).find(|b| b.is_err())
            });
            for (f, _) in &files {
                std::fs::remove_file(f).unwrap();
            }
            if let Some(Err(e)) = bad {
                return Err(format!("{n} threads loading at once: {e}"));
            }
            ctx.add("files_by_threads", n * 6);
        }
    }
    Ok(())
}
/// the points of a file in a thread of the harness
fn load_points(f: &str, want: &[P]) -> Result<(), String> {
    use poly2tri_rs::loader::{Loader, PlainFileLoader};
    let t = guard(|| PlainFileLoader::default().load(f).map(|b| b.build().triangulate()))?;
    let t = t.map_err(|e| format!("a well-formed file is refused: {e}"))?;
    if t.points().len() != want.len() || (0..want.len()).any(|i| !same(want[i], &t.points()[i])) {
        return Err("other points than the file's".into());
    }
    Ok(())
}
/// a sign, digits with a point among or beside them, an exponent
fn decimal(t: &str) -> bool {
    let t = t.strip_prefix(['+', '-']).unwrap_or(t);
    let (m, e) = match t.find(['e', 'E']) {
        Some(k) => (&t[..k], Some(&t[k + 1..])),
        None => (t, None),
    };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let m = match m.split_once('.') {
        Some((a, b)) => digits(&format!("{a}{b}")),
        None => digits(m),
    };
    m && e.map_or(true, |e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))
}
fn k_loader(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    match loader(ctx, c, aux) {
        Ok(b) => V::Held(b),
        Err(s) => V::Bad(s),
    }
}

// ---- C14, C15: everything about one result ----
fn k_full(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    let t = held!(run::indices(c));
    let all = c.all();
    held!(tiling_of(c, &all, &t));
    let s = held!(constraints_of(c, &all, &t));
    let n = held!(oracle::delaunay(c, &all, &t));
    let used: HashSet<u32> = t.iter().flatten().copied().collect();
    let first = c.n() - c.steiner.len();
    for i in first..c.n() {
        if c.in_domain(all[i]) != used.contains(&(i as u32)) {
            return V::Bad(format!("free point {i} {:?} is wrongly in or out of the mesh", all[i]));
        }
    }
    ctx.add("edges_tested", n);
    ctx.add("segments_checked", s);
    check_counts(ctx, c, &t);
    if aux % 8 == 0 {
        held!(views(ctx, c, aux));
    }
    V::Held(n >= 1)
}
/// run with an observer under debug assertions
fn g_small(r: &mut Rng, i: u64) -> Case {
    gen::mix(r, i % 12, 40, ANY)
}
fn g_in(r: &mut Rng, i: u64) -> Case {
    gen::mix(r, i, 300, IN)
}

pub const R_MIX: &str = "random valid polygons of 23 shape families (log-uniform size) with holes, Steiner points inside, in holes, outside and next to edges, under rotations, scales, reflections and offsets; non-trivial: at least two triangles";

pub const R_X: &str = "valid inputs with huge offsets, one-ulp jitter of collinear and cocircular points, scales of 2^-190 to 2^190, anisotropy and shear";

pub const R_L: &str = "38 families of 300 to 15000 points, some with thousands of free points, in any orientation; one in 127 with more than 66000 points";

fn g_views_large(r: &mut Rng, i: u64) -> Case {
    if i % 8 == 7 && i % 16 < 8 {
        return gen::many(r);
    }
    gen::large(r, i)
}

pub fn modes() -> Vec<Mode> {
    vec![
        Mode { name: "tiling", gen: g_mix, check: k_tiling, valid: true, rule: R_MIX },
        Mode { name: "constraints", gen: g_mix, check: k_constraints, valid: true, rule: R_MIX },
        Mode { name: "delaunay", gen: g_delaunay, check: k_delaunay, valid: true, rule: "as tiling; non-trivial: at least one unconstrained inner edge was tested by exact in-circle" },
        Mode { name: "steiner", gen: g_steiner, check: k_steiner, valid: true, rule: "as tiling, always with Steiner points, most of them partly outside or in holes; non-trivial: some outside the domain, or several" },
        Mode { name: "views", gen: g_in, check: k_views, valid: true, rule: "as tiling; non-trivial: at least two triangles compared" },
        Mode { name: "builder", gen: g_small, check: k_builder, valid: true, rule: "a random valid input given through a random sequence of builder calls with tracked data; non-trivial: several calls" },
        Mode { name: "total", gen: g_delaunay, check: k_total, valid: true, rule: "as tiling, with a step-counting observer; non-trivial: at least two triangles" },
        Mode { name: "giant", gen: g_giant, check: k_giant, valid: true, rule: "24 families of 250 to 72000 points built to drive one part of the sweep deep, on a 2 MB stack; all non-trivial" },
        Mode { name: "xtotal", gen: gen::extreme, check: k_total, valid: true, rule: R_X },
        Mode { name: "xinvariance", gen: gen::extreme, check: k_invariance, valid: true, rule: R_X },
        Mode { name: "xdigest", gen: gen::extreme, check: k_digest, valid: true, rule: R_X },
        Mode { name: "ltotal", gen: g_ltotal, check: k_total, valid: true, rule: "38 families of 200 to 2000 points, in any orientation" },
        Mode { name: "ldigest", gen: g_ldigest, check: k_digest, valid: true, rule: "38 families of 300 to 4000 points, in any orientation" },
        Mode { name: "ltiling", gen: gen::large, check: k_tiling, valid: true, rule: R_L },
        Mode { name: "lconstraints", gen: gen::large, check: k_constraints, valid: true, rule: R_L },
        Mode { name: "ldelaunay", gen: gen::large, check: k_delaunay, valid: true, rule: R_L },
        Mode { name: "lsteiner", gen: gen::large, check: k_steiner, valid: true, rule: R_L },
        Mode { name: "lviews", gen: g_views_large, check: k_views, valid: true, rule: R_L },
        Mode { name: "lbuilder", gen: gen::large, check: k_builder, valid: true, rule: R_L },
        Mode { name: "threads", gen: g_small, check: k_threads, valid: true, rule: "a random valid input triangulated, observed, loaded from a file and abandoned on up to six threads at once; non-trivial: at least two triangles" },
        Mode { name: "linvariance", gen: gen::large, check: k_invariance, valid: true, rule: R_L },
        Mode { name: "ldeterminism", gen: gen::large, check: k_determinism, valid: true, rule: R_L },
        Mode { name: "lprotocol", gen: gen::large, check: k_protocol, valid: true, rule: R_L },
        Mode { name: "lloader", gen: gen::large, check: k_loader, valid: true, rule: R_L },
        Mode { name: "lfull", gen: gen::large, check: k_full, valid: true, rule: R_L },
        Mode { name: "chosen", gen: g_chosen, check: k_total, valid: true, rule: "manual" },
        Mode { name: "invariance", gen: g_small, check: k_invariance, valid: true, rule: "a random valid input and 4 other descriptions of it; non-trivial: its constrained Delaunay triangulation is unique and has at least two triangles" },
        Mode { name: "determinism", gen: g_small, check: k_determinism, valid: true, rule: "a random valid input triangulated again, cloned, observed and on threads; non-trivial: at least two triangles" },
        Mode { name: "digest", gen: g_small, check: k_digest, valid: true, rule: "as determinism, digest compared between processes" },
        Mode { name: "protocol", gen: g_in_any, check: k_protocol, valid: true, rule: "as tiling, with a protocol automaton as observer; non-trivial: at least one rotation was reported" },
        Mode { name: "loader", gen: g_small, check: k_loader, valid: true, rule: "a random valid input written in a random layout of the file format, loaded, and damaged; non-trivial: more than 3 points" },
        Mode { name: "full", gen: g_mix, check: k_full, valid: true, rule: "as tiling; non-trivial: at least one unconstrained inner edge was tested by exact in-circle" },
        Mode { name: "extreme", gen: gen::extreme, check: k_full, valid: true, rule: "valid inputs with huge offsets, one-ulp jitter of collinear and cocircular points, scales of 2^-190 to 2^190, anisotropy and shear; non-trivial: at least one unconstrained inner edge was tested by exact in-circle" },
    ]
}
fn g_ldigest(r: &mut Rng, i: u64) -> Case {
    gen::large_n(r, i, 500, 3500)
}
fn g_ltotal(r: &mut Rng, i: u64) -> Case {
    gen::large_n(r, i, 300, 2000)
}
fn g_in_any(r: &mut Rng, i: u64) -> Case {
    gen::mix(r, i, 300, ANY)
}
/// giant case of a chosen family and size: P2T_FAM, P2T_N
fn g_chosen(r: &mut Rng, _: u64) -> Case {
    let f = std::env::var("P2T_FAM").unwrap();
    let n = std::env::var("P2T_N").unwrap().parse().unwrap();
    giant(r, &f, n)
}
