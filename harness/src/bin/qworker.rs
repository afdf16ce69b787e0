//! Queries on points and triangles that an observer reaches through its context
//! (the crate's `draw` example uses them), against a model.
use p2t_harness::case::{self, Case};
use p2t_harness::drive::{self, Ctx, Mode, V};
use p2t_harness::exact::P;
use p2t_harness::gen::{self, Where};
use p2t_harness::modes::{R_MIX, R_X};
use p2t_harness::rng::Rng;
use p2t_harness::run::{self, guard};
use poly2tri_rs::{Edge, Float, Observer, Point, PointId, Sweeper, TriangleId};

const ANY: &[Where] = &[Where::Inside, Where::InsideAndHoles, Where::Anywhere];

struct Queries {
    r: Rng,
    all: Vec<P>,
    /// rank by (y, x) -> point
    order: Vec<u32>,
    /// lower ends of the segments a point is the upper end of, sorted
    lower: Vec<Vec<u32>>,
    err: Option<String>,
    every: u64,
    tick: u64,
    ids: Vec<PointId>,
    points: usize,
    corners: usize,
    pairs: usize,
    strangers: usize,
    changed: usize,
}

fn same(p: P, q: &Point) -> bool {
    let q = case::xy(q);
    p.0.to_bits() == q.0.to_bits() && p.1.to_bits() == q.1.to_bits()
}

macro_rules! want {
    ($got:expr, $want:expr, $($what:tt)*) => {{
        let (g, w) = ($got, $want);
        if g != w {
            return Err(format!("{} gives {g:?}, not {w:?}", format!($($what)*)));
        }
    }};
}

impl Queries {
    fn new(c: &Case, aux: u64) -> Self {
        let all = c.all();
        let below = |a: P, b: P| a.1 < b.1 || a.1 == b.1 && a.0 < b.0;
        let mut order: Vec<u32> = (0..all.len() as u32).collect();
        order.sort_by(|&a, &b| if below(all[a as usize], all[b as usize]) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
        let mut lower = vec![vec![]; all.len()];
        let mut at = 0;
        for ring in std::iter::once(&c.outer).chain(&c.holes) {
            let n = ring.len();
            for i in 0..n {
                let (a, b) = (at + i, at + (i + 1) % n);
                let (p, q) = if below(all[a], all[b]) { (a, b) } else { (b, a) };
                lower[q].push(p as u32);
            }
            at += n;
        }
        for l in &mut lower {
            l.sort();
        }
        let n = all.len() as u64;
        Queries {
            r: Rng::new(aux, 18),
            every: if n < 20 { 3 } else { n },
            tick: 0,
            all,
            order,
            lower,
            err: None,
            ids: vec![],
            points: 0,
            corners: 0,
            pairs: 0,
            strangers: 0,
            changed: 0,
        }
    }
    fn look(&mut self, what: &str, c: &Sweeper, surely: bool) {
        self.tick += 1;
        if self.err.is_some() || !surely && self.tick % self.every != 0 {
            return;
        }
        let r = guard(|| {
            if surely || self.r.chance(1, 4) {
                self.point_queries(c)?;
            }
            self.triangle_queries(c, surely)
        });
        if let Err(e) = r.unwrap_or_else(Err) {
            self.err = Some(format!("at {what}: {e}"));
        }
    }

    fn point_queries(&mut self, c: &Sweeper) -> Result<(), String> {
        let n = self.all.len();
        let p = c.points;
        want!(p.len(), n + 2, "number of points");
        want!(p.points().len(), n + 2, "length of the point list");
        want!(p.points_without_fake().len(), n, "length of the list without artificial points");
        want!(p.head.as_usize().min(p.tail.as_usize()), n, "first artificial point");
        want!(p.head.as_usize().max(p.tail.as_usize()), n + 1, "second artificial point");
        let sorted = |e: Vec<PointId>| {
            let mut e: Vec<u32> = e.iter().map(|p| p.as_u32()).collect();
            e.sort();
            e
        };
        let mut k = 0;
        self.ids.clear();
        for (id, q, e) in p.iter() {
            want!((id.as_usize(), id.as_u32()), (k, k as u32), "id of point {k} in the enumeration");
            if k < n {
                if !same(self.all[k], q) {
                    return Err(format!("point {k} is {q:?}, given as {:?}", self.all[k]));
                }
                want!(&sorted(e.collect()), &self.lower[k], "segments ending at point {k} from below");
            } else {
                want!(e.count(), 0, "segments of an artificial point");
            }
            if !p.get_point(id).is_some_and(|g| same(case::xy(q), &g)) || !same(case::xy(q), &p.points()[k]) {
                return Err(format!("point {k} is {:?} by id, {:?} in the list, {q:?} in the enumeration", p.get_point(id), p.points()[k]));
            }
            self.ids.push(id);
            k += 1;
        }
        want!(k, n + 2, "number of enumerated points");
        let mut k = 0;
        for (id, q, e) in p.iter_without_fake() {
            want!(id.as_usize(), k, "id of point {k} in the enumeration without artificial points");
            if k >= n || !same(self.all[k], q) || !same(self.all[k], &p.points_without_fake()[k]) {
                return Err(format!("enumeration without artificial points: point {k} is {q:?}"));
            }
            want!(&sorted(e.collect()), &self.lower[k], "segments ending at point {k} from below");
            k += 1;
        }
        want!(k, n, "number of points enumerated without the artificial ones");
        // by height
        for from in [0, 1, self.r.below(n as u64 + 1) as usize, n] {
            let mut k = from.min(n);
            for (id, q, e) in p.iter_point_by_y(from) {
                if k >= n {
                    return Err(format!("more than {n} points by height"));
                }
                want!(id.as_u32(), self.order[k], "point of rank {k} by height, from rank {from},");
                if !same(self.all[id.as_usize()], &q) {
                    return Err(format!("point of rank {k} is {q:?}"));
                }
                want!(&sorted(e.collect()), &self.lower[id.as_usize()], "segments ending at the point of rank {k}");
                k += 1;
            }
            want!(k, n, "end of the enumeration by height");
        }
        for k in 0..n {
            want!(p.get_id_by_y(k).map(|i| i.as_u32()), Some(self.order[k]), "point of rank {k}");
        }
        want!(p.get_id_by_y(n), None, "rank past the last point");
        want!(p.get_id_by_y(n + 1 + self.r.below(5) as usize), None, "rank past the last point");
        // the artificial points lie outside, below, one left and one right
        let (h, t) = (p.points()[p.head.as_usize()], p.points()[p.tail.as_usize()]);
        let (h, t) = (case::xy(&h), case::xy(&t));
        for (k, q) in self.all.iter().enumerate() {
            if !(h.0 < q.0 && q.0 < t.0 && h.1 < q.1 && t.1 < q.1) {
                return Err(format!("artificial points {h:?} and {t:?} are not left and right below point {k} {q:?}"));
            }
        }
        // segment of two points, whichever is named first
        for _ in 0..6 {
            let a = self.r.below(n as u64) as usize;
            let b = self.r.below(n as u64) as usize;
            if a == b {
                continue;
            }
            let (pa, pb) = (&p.points()[a], &p.points()[b]);
            let e = Edge::new((self.ids[a], pa), (self.ids[b], pb));
            let (x, y) = (self.all[a], self.all[b]);
            let low = if x.1 < y.1 || x.1 == y.1 && x.0 < y.0 { (a, b) } else { (b, a) };
            want!((e.p.as_usize(), e.q.as_usize()), low, "edge of points {a} and {b}");
            want!(pa.eq(pb), x == y, "comparing points {a} and {b}");
        }
        self.points += n + 2;
        Ok(())
    }

    fn triangle_queries(&mut self, c: &Sweeper, every_one: bool) -> Result<(), String> {
        let s = &c.triangles;
        let n = s.len();
        if self.ids.is_empty() {
            self.ids = c.points.iter().map(|p| p.0).collect();
        }
        let mut count = 0;
        for (k, (id, t)) in s.iter().enumerate() {
            count += 1;
            want!((id.as_usize(), id.invalid(), id.into_option()), (k, false, Some(id)), "id of triangle {k}");
            if !every_one && n > 40 && !self.r.chance(1, n as u64 / 20) {
                continue;
            }
            if TriangleId::from_index(k) != id {
                return Err(format!("id made from {k} differs from the one of triangle {k}"));
            }
            let corners = t.points;
            for (what, u) in [("get", s.get(id)), ("try_get", id.try_get(s)), ("id.get", Some(id.get(s))), ("get_unchecked", Some(s.get_unchecked(id)))] {
                match u {
                    Some(u) if u.points == corners && u.neighbors == t.neighbors && u.interior == t.interior => {}
                    _ => return Err(format!("{what}: triangle {k} is another one than in the enumeration")),
                }
            }
            macro_rules! flags {
                ($t:expr) => {
                    [0, 1, 2].map(|i| ($t.is_constrained(i), $t.is_delaunay(i)))
                };
            }
            let all = flags!(t);
            for i in 0..3 {
                let p = corners[i];
                let (ccw, cw) = ((i + 1) % 3, (i + 2) % 3);
                want!(t.point_index(p), Some(i), "triangle {k} {corners:?}: index of {p:?}");
                want!(t.point_ccw(p), corners[ccw], "triangle {k} {corners:?}: corner counter-clockwise of {p:?}");
                want!(t.point_cw(p), corners[cw], "triangle {k} {corners:?}: corner clockwise of {p:?}");
                // an edge has the number of the corner opposite to it
                want!(t.neighbor_across(p), t.neighbors[i], "triangle {k} {corners:?}: neighbour across {p:?}");
                want!(t.neighbor_ccw(p), t.neighbors[cw], "triangle {k} {corners:?}: neighbour counter-clockwise of {p:?}");
                want!(t.neighbor_cw(p), t.neighbors[ccw], "triangle {k} {corners:?}: neighbour clockwise of {p:?}");
                want!(t.constrained_edge_cw(p), all[ccw].0, "triangle {k} {corners:?}: segment clockwise of {p:?}");
                let mut copy = *t;
                copy.edge_attrs = [t.edge_attr_ccw(p), t.edge_attr_cw(p), t.edge_attrs[0]];
                want!(flags!(copy), [all[cw], all[ccw], all[0]], "triangle {k}: flags counter-clockwise and clockwise of {p:?}");
                for j in 0..3 {
                    want!(t.edge_index(p, corners[j]), (i != j).then(|| 3 - i - j), "triangle {k} {corners:?}: edge {p:?}-{:?}", corners[j]);
                }
                let far = *self.r.pick(&self.ids);
                if !corners.contains(&far) {
                    want!(t.edge_index(p, far), None, "triangle {k} {corners:?}: edge {p:?}-{far:?}");
                    want!(t.edge_index(far, p), None, "triangle {k} {corners:?}: edge {far:?}-{p:?}");
                    want!(t.point_index(far), None, "triangle {k} {corners:?}: index of {far:?}");
                }
                self.corners += 1;
                let o = t.neighbors[i];
                if o.invalid() {
                    want!(o.into_option(), None, "the invalid id");
                    continue;
                }
                let u = s.get(o).ok_or_else(|| format!("neighbour {o:?} of triangle {k} is unknown"))?;
                let Some(oi) = (0..3).find(|&j| u.points[(j + 1) % 3] == corners[cw] && u.points[(j + 2) % 3] == corners[ccw]) else {
                    continue; // C12's business
                };
                want!(t.common_edge_index(u), Some((i, oi)), "common edge of triangles {k} {corners:?} and {o:?} {:?}", u.points);
                want!(u.opposite_point(t, p), u.points[oi], "triangle {o:?} {:?}: corner opposite to {p:?} of {corners:?}", u.points);
                if u.neighbors.iter().filter(|x| **x == id).count() == 1 {
                    want!(u.neighbor_index(id), u.neighbors.iter().position(|x| *x == id).unwrap(), "index of neighbour {k} in triangle {o:?}");
                }
                self.pairs += 1;
            }
            // any other triangle
            let o = TriangleId::from_index(self.r.below(n as u64) as usize);
            if o != id {
                let u = s.get(o).ok_or("a triangle is missing")?;
                let model = (0..9)
                    .map(|x| (x / 3, x % 3))
                    .find(|&(i, j)| corners[(i + 1) % 3] == u.points[(j + 2) % 3] && corners[(i + 2) % 3] == u.points[(j + 1) % 3]);
                want!(t.common_edge_index(u), model, "common edge of triangles {corners:?} and {:?}", u.points);
                self.strangers += 1;
            }
            // changes of a copy change what they name only
            let i = self.r.below(3) as usize;
            let (p, q) = (corners[i], corners[(i + 1) % 3]);
            let val = self.r.chance(1, 2);
            let mut copy = *t;
            let mut model = all;
            copy.set_constrained(i, val);
            model[i].0 = val;
            want!(flags!(copy), model, "triangle {k}: flags after setting edge {i} {val}");
            for _ in 0..2 {
                // any order, any edge
                let (j, v) = (self.r.below(3) as usize, self.r.chance(1, 2));
                copy.set_delaunay(j, v);
                model[j].1 = v;
                want!(flags!(copy), model, "triangle {k}: flags after setting edge {j} delaunay {v}");
                let (j, v) = (self.r.below(3) as usize, self.r.chance(2, 3));
                copy.set_constrained(j, v);
                model[j].0 = v;
                want!(flags!(copy), model, "triangle {k}: flags after setting edge {j} {v}");
            }
            copy.set_constrained_for_edge(q, p);
            model[(i + 2) % 3].0 = true;
            want!(flags!(copy), model, "triangle {k}: flags after marking edge {q:?}-{p:?}");
            let far = *self.r.pick(&self.ids);
            if !corners.contains(&far) {
                copy.set_constrained_for_edge(p, far);
                want!(flags!(copy), model, "triangle {k}: flags after marking an edge it does not have");
                // turned about p until far is a corner
                let mut turned = copy;
                turned.rotate_cw(p, far);
                let at = turned.point_index(p);
                let cyc = at.map(|a| [turned.points[a], turned.points[(a + 1) % 3], turned.points[(a + 2) % 3]]);
                want!(cyc, Some([p, far, corners[(i + 2) % 3]]), "triangle {corners:?} turned clockwise about {p:?} to {far:?}");
            }
            let j = self.r.below(3) as usize;
            let (attr, of) = (t.edge_attrs[j], all[j]);
            copy.set_edge_attr_cw(p, attr);
            model[(i + 1) % 3] = of;
            want!(flags!(copy), model, "triangle {k}: flags after setting those clockwise of {p:?}");
            copy.set_edge_attr_ccw(p, attr);
            model[(i + 2) % 3] = of;
            want!(flags!(copy), model, "triangle {k}: flags after setting those counter-clockwise of {p:?}");
            copy.clear_neighbors();
            want!(copy.neighbors, [TriangleId::INVALID; 3], "neighbours after clearing");
            want!(copy.points, corners, "corners after changing flags");
            self.changed += 1;
        }
        want!(count, n, "number of enumerated triangles");
        // far ones, too: those that only the lower bits of are an index
        let low = self.r.below(n as u64) as usize;
        let bit = 1usize << (16 + self.r.below(48));
        for x in [n, n + 1, usize::MAX - 1, low + (1 << 16).max(n), low + (1 << 32), low + (1 << 63), (low + bit).max(n)] {
            want!(TriangleId::from_index(x).as_usize(), x, "index of the id made of an index");
            if s.get(TriangleId::from_index(x)).is_some() || TriangleId::from_index(x).try_get(s).is_some() {
                return Err(format!("there is a triangle {x} of {n}"));
            }
        }
        if s.get(TriangleId::INVALID).is_some() || !TriangleId::INVALID.invalid() {
            return Err("the invalid id names a triangle".into());
        }
        Ok(())
    }
}

impl Observer for Queries {
    fn enter_point_event(&mut self, _: PointId, c: &Sweeper) {
        let first = self.tick == 0;
        self.look("enter_point_event", c, first)
    }
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look("exit_point_event", c, false)
    }
    fn edge_event(&mut self, _: Edge, c: &Sweeper) {
        self.look("edge_event", c, false)
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, c: &Sweeper) {
        self.look("triangle_rotated", c, false)
    }
    fn legalize_step(&mut self, _: TriangleId, c: &Sweeper) {
        self.look("legalize_step", c, false)
    }
    fn legalized(&mut self, _: TriangleId, c: &Sweeper) {
        self.look("legalized", c, false)
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        self.look("sweep_done", c, true)
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.look("finalized", c, true)
    }
}

fn k_queries(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    let _ = Float::MAX;
    let mut o = Queries::new(c, aux);
    let r = run::indices_observed(c, &mut o);
    if let Some(e) = o.err {
        return V::Bad(e);
    }
    if let Err(e) = r {
        return V::Bad(e);
    }
    ctx.add("points_compared", o.points);
    ctx.add("corners_compared", o.corners);
    ctx.add("neighbour_pairs_compared", o.pairs);
    ctx.add("other_pairs_compared", o.strangers);
    ctx.add("changed_copies", o.changed);
    V::Held(o.pairs > 0 && o.points > 0)
}

fn g_mid(r: &mut Rng, i: u64) -> Case {
    gen::mix(r, i % 12, 90, ANY)
}
fn g_xmid(r: &mut Rng, i: u64) -> Case {
    gen::extreme(r, i - i % 8 + i % 7)
}
fn g_lmid(r: &mut Rng, i: u64) -> Case {
    gen::large_n(r, i, 120, if i % 8 == 0 { 1500 } else { 400 })
}

fn main() {
    drive::main(vec![
        Mode { name: "queries", gen: g_mid, check: k_queries, valid: true, rule: R_MIX },
        Mode { name: "xqueries", gen: g_xmid, check: k_queries, valid: true, rule: R_X },
        Mode { name: "lqueries", gen: g_lmid, check: k_queries, valid: true, rule: "38 families of 100 to 1500 points, some with as many free points, in any orientation" },
    ]);
}
