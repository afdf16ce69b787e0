//! Checks that look at the sweep through the context an observer is given, as
//! the crate's own `draw` example does.
use p2t_harness::case::{self, Case};
use p2t_harness::drive::{self, Ctx, Mode, V};
use p2t_harness::exact::{self, P};
use p2t_harness::gen::{self, Where};
use p2t_harness::oracle;
use p2t_harness::rng::Rng;
use p2t_harness::run::{self, guard};
use p2t_harness::{hostile, modes::{R_MIX, R_X}};
use poly2tri_rs::{Edge, Float, Observer, Point, PointId, Sweeper, TriangleId};
use std::collections::{BTreeMap, HashMap, HashSet};

const ANY: &[Where] = &[Where::Inside, Where::InsideAndHoles, Where::Anywhere];

fn at(c: &Sweeper, p: PointId) -> Option<P> {
    c.points.get_point(p).map(|p| case::xy(&p))
}

// ---- C12: the state of the sweep ----
#[derive(Default)]
struct State {
    /// points given
    n: u32,
    all: Vec<P>,
    wanted: HashSet<(u32, u32)>,
    processed: HashSet<u32>,
    edges: HashSet<(u32, u32)>,
    err: Option<String>,
    result: Option<Vec<[u32; 3]>>,
    /// look at every k-th legalization only
    every: u64,
    seen: u64,
    snapshots: usize,
    triangles: usize,
    front_nodes: usize,
    delaunay_edges: usize,
    swept: bool,
}

fn key(a: u32, b: u32) -> (u32, u32) {
    (a.min(b), a.max(b))
}

impl State {
    fn check(&mut self, what: &str, c: &Sweeper, settled: bool) {
        if self.err.is_none() {
            if let Err(e) = self.snapshot(c, settled) {
                self.err = Some(format!("at {what}: {e}"));
            }
        }
    }
    fn snapshot(&mut self, c: &Sweeper, settled: bool) -> Result<(), String> {
        self.snapshots += 1;
        let (head, tail) = (c.points.head.as_u32(), c.points.tail.as_u32());
        // every directed edge of the mesh: triangle, index, constrained
        let mut dir: HashMap<(u32, u32), (TriangleId, usize, bool)> = HashMap::new();
        let mut used: HashSet<u32> = HashSet::new();
        let mut count = 0usize;
        for (id, t) in c.triangles.iter() {
            count += 1;
            let v = t.points.map(|p| p.as_u32());
            let mut xy = [(0., 0.); 3];
            for k in 0..3 {
                xy[k] = at(c, t.points[k]).ok_or_else(|| format!("triangle {id:?} names point {}", v[k]))?;
                used.insert(v[k]);
            }
            if exact::orient(xy[0], xy[1], xy[2]) < 0 {
                return Err(format!("triangle {id:?} {v:?} is not counter-clockwise"));
            }
            for k in 0..3 {
                // the edge opposite to corner k
                let e = (v[(k + 1) % 3], v[(k + 2) % 3]);
                if dir.insert(e, (id, k, t.is_constrained(k))).is_some() {
                    return Err(format!("two triangles on the same side of edge {e:?}"));
                }
            }
        }
        self.triangles += count;
        let mut boundary = HashSet::new();
        let mut flagged = HashSet::new();
        for (&(a, b), &(id, k, cons)) in &dir {
            let t = id.try_get(c.triangles).ok_or("triangle vanished")?;
            let nb = t.neighbors[k];
            match dir.get(&(b, a)) {
                Some(&(oid, ok, ocons)) => {
                    if nb != oid {
                        return Err(format!("triangle {id:?} across edge {a}-{b}: neighbour {nb:?}, should be {oid:?}"));
                    }
                    let _ = ok;
                    if cons != ocons {
                        return Err(format!("edge {a}-{b} is constrained on one side only"));
                    }
                }
                None => {
                    if !nb.invalid() {
                        return Err(format!("triangle {id:?} has neighbour {nb:?} across the border edge {a}-{b}"));
                    }
                    boundary.insert((a, b));
                }
            }
            if cons {
                flagged.insert(key(a, b));
            }
        }
        // flags: exactly the segments whose turn has come
        for e in &flagged {
            if !self.wanted.contains(e) {
                return Err(format!("edge {e:?} is constrained but no segment of the input"));
            }
        }
        for e in &self.edges {
            if !dir.contains_key(e) && !dir.contains_key(&(e.1, e.0)) {
                return Err(format!("segment {e:?} is no longer an edge of the mesh"));
            }
            if !flagged.contains(e) {
                return Err(format!("segment {e:?} has lost its constrained flag"));
            }
        }
        // vertices: processed points and the two artificial ones
        for &p in &self.processed {
            if !used.contains(&p) {
                return Err(format!("point {p} was processed but is no vertex of the mesh"));
            }
        }
        if used.len() != self.processed.len() + 2 || !used.contains(&head) || !used.contains(&tail) {
            return Err(format!("{} vertices in the mesh for {} processed points", used.len(), self.processed.len()));
        }
        // the front
        let mut border = HashSet::new();
        let mut prev: Option<(u32, P, Option<TriangleId>)> = None;
        let mut nodes = 0;
        for node in c.advancing_front.iter() {
            nodes += 1;
            let (id, xy) = (node.point_id().as_u32(), case::xy(&node.point()));
            if at(c, node.point_id()) != Some(xy) {
                return Err(format!("front node of point {id} has coordinates {xy:?}"));
            }
            match prev {
                None => {
                    if id != head {
                        return Err(format!("the front starts at point {id}"));
                    }
                }
                Some((pid, pxy, pt)) => {
                    if !((pxy.0, pxy.1) < (xy.0, xy.1)) {
                        return Err(format!("the front does not go to the right from point {pid} to {id}"));
                    }
                    // border edges run clockwise seen from above: from right to left
                    border.insert((id, pid));
                    let t = dir.get(&(id, pid)).map(|e| e.0);
                    if t.is_none() || pt != t {
                        return Err(format!(
                            "front edge {pid}-{id} is recorded with triangle {pt:?}, the mesh has {t:?} below it"
                        ));
                    }
                }
            }
            prev = Some((id, xy, node.triangle));
        }
        if prev.map(|p| p.0) != Some(tail) {
            return Err(format!("the front ends at point {:?}", prev.map(|p| p.0)));
        }
        self.front_nodes += nodes;
        border.insert((head, tail));
        if border != boundary {
            let extra: Vec<_> = boundary.difference(&border).take(3).collect();
            let missing: Vec<_> = border.difference(&boundary).take(3).collect();
            return Err(format!("border of the mesh is not the front: extra {extra:?}, missing {missing:?}"));
        }
        // one piece without holes
        if count + boundary.len() + 2 != 2 * used.len() {
            return Err(format!(
                "{count} triangles, {} vertices and {} border edges contradict Euler's formula",
                used.len(),
                boundary.len()
            ));
        }
        if settled {
            for (&(a, b), &(id, k, cons)) in &dir {
                if a > b || cons {
                    continue;
                }
                let Some(&(oid, ok, _)) = dir.get(&(b, a)) else { continue };
                let t = id.get(c.triangles);
                let o = oid.get(c.triangles);
                let p = t.points.map(|p| at(c, p).unwrap());
                let q = at(c, o.points[ok]).unwrap();
                let _ = k;
                self.delaunay_edges += 1;
                if exact::incircle(p[0], p[1], p[2], q) > 0 {
                    return Err(format!("edge {a}-{b} between {id:?} and {oid:?} is illegal"));
                }
            }
        }
        Ok(())
    }
}
impl Observer for State {
    fn enter_point_event(&mut self, p: PointId, c: &Sweeper) {
        if self.processed.is_empty() {
            // the lowest point starts the sweep without an event
            for (_, t) in c.triangles.iter() {
                for q in t.points {
                    if q.as_u32() < self.n {
                        self.processed.insert(q.as_u32());
                    }
                }
            }
            if self.processed.len() != 1 {
                self.err.get_or_insert(format!("the sweep starts with {} points", self.processed.len()));
            }
            let low = (0..self.n)
                .min_by(|&a, &b| {
                    let k = |p: u32| (self.all[p as usize].1, self.all[p as usize].0);
                    k(a).partial_cmp(&k(b)).unwrap()
                })
                .unwrap();
            if !self.processed.contains(&low) {
                self.err.get_or_insert(format!("the sweep does not start with the lowest point {low}"));
            }
            self.check("start", c, true);
        }
        self.processed.insert(p.as_u32());
        if at(c, p) != self.all.get(p.as_usize()).copied() {
            self.err.get_or_insert(format!("point {p:?} has changed its coordinates"));
        }
    }
    fn exit_point_event(&mut self, p: PointId, c: &Sweeper) {
        self.check(&format!("the end of the event of point {}", p.as_u32()), c, true);
    }
    fn edge_event(&mut self, e: Edge, c: &Sweeper) {
        self.edges.insert(key(e.p.as_u32(), e.q.as_u32()));
        self.check(&format!("the end of the event of edge {}-{}", e.p.as_u32(), e.q.as_u32()), c, true);
    }
    fn legalized(&mut self, _: TriangleId, c: &Sweeper) {
        self.seen += 1;
        if self.seen % self.every == 0 {
            self.check(&format!("legalization {}", self.seen), c, false);
        }
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        self.swept = true;
        if self.edges != self.wanted {
            self.err.get_or_insert(format!("{} of {} segments were inserted", self.edges.len(), self.wanted.len()));
        }
        if self.processed.len() != self.n as usize {
            self.err.get_or_insert(format!("{} of {} points were processed", self.processed.len(), self.n));
        }
        if !c.result.is_empty() {
            self.err.get_or_insert("a result before the end".into());
        }
        self.check("the end of the sweep", c, true);
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.check("the end", c, true);
        let r = guard(|| {
            c.result.iter().map(|t| t.get(c.triangles).points.map(|p| p.as_u32())).collect::<Vec<_>>()
        });
        match r {
            Ok(v) => {
                let ids: HashSet<TriangleId> = c.result.iter().copied().collect();
                for (id, t) in c.triangles.iter() {
                    if t.interior != ids.contains(&id) {
                        self.err.get_or_insert(format!(
                            "triangle {id:?} is {}marked as interior",
                            if t.interior { "" } else { "not " }
                        ));
                    }
                }
                self.result = Some(v)
            }
            Err(e) => {
                self.err.get_or_insert(e);
            }
        }
    }
}
fn k_state(ctx: &mut Ctx, c: &Case, _: u64) -> V {
    let n = c.n() as u64;
    let mut o = State {
        n: n as u32,
        all: c.all(),
        wanted: oracle::constraint_set(c),
        every: if n <= 24 { 1 } else { n / 4 },
        ..Default::default()
    };
    let r = run::indices_observed(c, &mut o);
    if let Some(e) = o.err {
        return V::Bad(e);
    }
    let t = match r {
        Ok(t) => t,
        Err(e) => return V::Bad(e),
    };
    if o.result.as_ref() != Some(&t) {
        return V::Bad("the triangles marked during finalization are not the ones returned".into());
    }
    ctx.add("snapshots_checked", o.snapshots);
    ctx.add("triangles_in_snapshots", o.triangles);
    ctx.add("front_nodes_in_snapshots", o.front_nodes);
    ctx.add("incircle_tests", o.delaunay_edges);
    V::Held(o.snapshots > 3)
}

// ---- C16: the crate's own legality queries ----
#[derive(Default)]
struct SelfCheck {
    err: Option<String>,
    every: u64,
    tick: u64,
    queries: usize,
    illegal: usize,
    with_illegal: usize,
    /// illegal edge that is constrained, so must not be reported
    exempt: usize,
    cocircular: usize,
}
impl SelfCheck {
    fn look(&mut self, what: &str, c: &Sweeper, force: bool) {
        self.tick += 1;
        if self.err.is_some() || !force && self.tick % self.every != 0 {
            return;
        }
        let mut want: Vec<(usize, usize)> = vec![];
        for (id, t) in c.triangles.iter() {
            for k in 0..3 {
                let nb = t.neighbors[k];
                let Some(o) = nb.try_get(c.triangles) else { continue };
                let (a, b) = (t.points[(k + 1) % 3], t.points[(k + 2) % 3]);
                let Some(op) = o.points.iter().copied().find(|&p| p != a && p != b) else { continue };
                let p = t.points.map(|p| at(c, p).unwrap());
                let q = at(c, op).unwrap();
                // a constrained edge is marked on both sides
                let ok = (0..3).find(|&j| o.points[j] == op).unwrap();
                let s = exact::incircle(p[0], p[1], p[2], q);
                if s == 0 {
                    self.cocircular += 1;
                }
                if s > 0 {
                    if t.is_constrained(k) && o.is_constrained(ok) {
                        self.exempt += 1;
                    } else {
                        want.push((id.as_usize(), nb.as_usize()));
                    }
                }
            }
        }
        let got = guard(|| {
            let v: Vec<(usize, usize)> =
                c.illegal_triangles().iter().map(|p| (p.0.as_usize(), p.1.as_usize())).collect();
            (v, c.verify_triangles())
        });
        let (mut got, ok) = match got {
            Ok(g) => g,
            Err(e) => {
                self.err = Some(format!("at {what}: {e}"));
                return;
            }
        };
        self.queries += 1;
        self.illegal += want.len();
        self.with_illegal += !want.is_empty() as usize;
        got.sort();
        want.sort();
        if got != want {
            let extra: Vec<_> = got.iter().filter(|p| !want.contains(p)).take(3).collect();
            let missing: Vec<_> = want.iter().filter(|p| !got.contains(p)).take(3).collect();
            self.err = Some(format!(
                "at {what}: {} illegal pairs reported, {} by exact arithmetic; wrongly reported {extra:?}, missed {missing:?}",
                got.len(),
                want.len()
            ));
        } else if ok != want.is_empty() {
            self.err = Some(format!("at {what}: verify_triangles() is {ok} with {} illegal pairs", want.len()));
        }
    }
}
impl Observer for SelfCheck {
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look("exit_point_event", c, false)
    }
    fn edge_event(&mut self, _: Edge, c: &Sweeper) {
        self.look("edge_event", c, false)
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        self.look("sweep_done", c, true)
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.look("finalized", c, true)
    }
    fn will_legalize(&mut self, _: TriangleId, c: &Sweeper) {
        self.look("will_legalize", c, false)
    }
    fn legalize_step(&mut self, _: TriangleId, c: &Sweeper) {
        self.look("legalize_step", c, false)
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, c: &Sweeper) {
        self.look("triangle_rotated", c, false)
    }
    fn legalized(&mut self, _: TriangleId, c: &Sweeper) {
        self.look("legalized", c, false)
    }
}
fn k_selfcheck(ctx: &mut Ctx, c: &Case, _: u64) -> V {
    let n = c.n() as u64;
    let mut o = SelfCheck { every: if n < 30 { 1 } else { n * n / 800 }, ..Default::default() };
    let r = run::indices_observed(c, &mut o);
    if let Some(e) = o.err {
        return V::Bad(e);
    }
    if let Err(e) = r {
        return V::Bad(e);
    }
    ctx.add("queries_compared", o.queries);
    ctx.add("illegal_pairs_agreed", o.illegal);
    ctx.add("states_with_illegal_pairs", o.with_illegal);
    ctx.add("constrained_pairs_exempt", o.exempt);
    ctx.add("cocircular_pairs", o.cocircular);
    V::Held(o.with_illegal > 0)
}

// ---- C17: queries on the advancing front ----
type Saved = Box<dyn Fn(&Sweeper) -> [Option<(u32, u64, u64)>; 3]>;
struct Front {
    r: Rng,
    err: Option<String>,
    saved: Vec<(u32, P, Saved)>,
    every: u64,
    tick: u64,
    queries: usize,
    stale: usize,
    outside: usize,
    coords: Vec<P>,
}
macro_rules! sig {
    ($n:expr) => {
        $n.map(|n| (n.point_id().as_u32(), case::xy(&n.point()).0.to_bits(), case::xy(&n.point()).1.to_bits()))
    };
}
impl Front {
    fn look(&mut self, what: &str, c: &Sweeper) {
        self.tick += 1;
        if self.err.is_some() || self.tick % self.every != 0 {
            return;
        }
        if let Err(e) = guard(|| self.compare(c)).unwrap_or_else(Err) {
            self.err = Some(format!("at {what}: {e}"));
        }
    }
    fn compare(&mut self, c: &Sweeper) -> Result<(), String> {
        // the model: a plain list of the nodes
        let mut list: Vec<(u32, P, Option<TriangleId>)> = vec![];
        for n in c.advancing_front.iter() {
            list.push((n.point_id().as_u32(), case::xy(&n.point()), n.triangle));
        }
        let bits = |i: Option<usize>| i.map(|i| (list[i].0, list[i].1 .0.to_bits(), list[i].1 .1.to_bits()));
        let lt = |a: P, b: P| (a.0, a.1) < (b.0, b.1);
        for w in list.windows(2) {
            if !lt(w[0].1, w[1].1) {
                return Err(format!("front nodes {} and {} are out of order", w[0].0, w[1].0));
            }
        }
        // by position
        for k in 0..3 {
            let i = match k {
                0 => list.len() - 1,
                1 => list.len() + self.r.below(3) as usize,
                _ => self.r.below(list.len() as u64) as usize,
            };
            let got = c.advancing_front.nth(i);
            if sig!(got.clone()) != bits((i < list.len()).then_some(i)) {
                return Err(format!("nth({i}) of {} nodes is wrong", list.len()));
            }
            if let Some(n) = got {
                if n.triangle != list[i].2 {
                    return Err(format!("nth({i}) has another triangle than the iterator shows"));
                }
                if sig!(n.next()) != bits((i + 1 < list.len()).then_some(i + 1)) {
                    return Err(format!("next() of node {i} is wrong"));
                }
                if sig!(n.prev()) != bits(i.checked_sub(1)) {
                    return Err(format!("prev() of node {i} is wrong"));
                }
            }
        }
        self.queries += 9;
        // by coordinates: inputs, front nodes, and points next to them
        let (lo, hi) = (list[0].1, list[list.len() - 1].1);
        for k in 0..6 {
            let mut q = match k {
                0 => *self.r.pick(&self.coords),
                1 => list[self.r.below(list.len() as u64) as usize].1,
                2 => (self.r.fr(lo.0, hi.0), self.r.fr(-1., 1.) * 1e3),
                _ => list[self.r.below(list.len() as u64) as usize].1,
            };
            match k {
                3 => q.0 = (q.0 as Float).next_down() as f64,
                4 => q.1 = (q.1 as Float).next_up() as f64,
                5 => q.1 = (q.1 as Float).next_down() as f64,
                _ => {}
            }
            // also left and right of the front
            if k == 2 && self.r.chance(1, 4) {
                q.0 = if self.r.chance(1, 2) { lo.0 - (hi.0 - lo.0) } else { hi.0 + (hi.0 - lo.0) };
                self.outside += 1;
            }
            let q = case::rnd(q);
            let p = Point::new(q.0 as Float, q.1 as Float);
            let below = (0..list.len()).rev().find(|&i| !lt(q, list[i].1));
            if sig!(c.advancing_front.locate_node(p)) != bits(below) {
                return Err(format!("locate_node({q:?}) is not node {below:?} of {list:?}"));
            }
            let eq = (0..list.len()).find(|&i| list[i].1 == q);
            if sig!(c.advancing_front.get_node(p)) != bits(eq) {
                return Err(format!("get_node({q:?}) is not node {eq:?}"));
            }
            self.queries += 2;
        }
        // by saved ids, also of nodes that have been covered since
        for _ in 0..4 {
            if self.saved.is_empty() {
                break;
            }
            let (id, xy, f) = self.r.pick(&self.saved);
            let at = list.iter().position(|n| n.0 == *id);
            let next = list.iter().position(|n| lt(*xy, n.1));
            let prev = (0..list.len()).rev().find(|&i| lt(list[i].1, *xy));
            let got = f(c);
            let what = if at.is_some() { "" } else { "covered " };
            if got[0] != bits(at) {
                return Err(format!("get_node_with_id for {what}node of point {id} is wrong"));
            }
            if got[1] != bits(next) {
                return Err(format!("locate_next_node for {what}node of point {id} is wrong"));
            }
            if got[2] != bits(prev) {
                return Err(format!("locate_prev_node for {what}node of point {id} is wrong"));
            }
            self.queries += 3;
            self.stale += at.is_none() as usize;
        }
        // remember an id
        let i = self.r.below(list.len() as u64) as usize;
        if let Some(n) = c.advancing_front.nth(i) {
            let id = n.get_node_id();
            if id.point_id().as_u32() != list[i].0 || case::xy(&id.point()) != list[i].1 {
                return Err(format!("get_node_id of node {i} names another node"));
            }
            let f: Saved = Box::new(move |c| {
                let af = &c.advancing_front;
                [
                    sig!(af.get_node_with_id(id)),
                    sig!(af.locate_next_node(id)),
                    sig!(af.locate_prev_node(id)),
                ]
            });
            if self.saved.len() < 40 {
                self.saved.push((list[i].0, list[i].1, f));
            } else {
                let k = self.r.below(40) as usize;
                self.saved[k] = (list[i].0, list[i].1, f);
            }
        }
        Ok(())
    }
}
impl Observer for Front {
    fn enter_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look("enter_point_event", c)
    }
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look("exit_point_event", c)
    }
    fn edge_event(&mut self, _: Edge, c: &Sweeper) {
        self.look("edge_event", c)
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        self.look("sweep_done", c)
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.look("finalized", c)
    }
    fn will_legalize(&mut self, _: TriangleId, c: &Sweeper) {
        self.look("will_legalize", c)
    }
    fn legalize_step(&mut self, _: TriangleId, c: &Sweeper) {
        self.look("legalize_step", c)
    }
    fn legalized(&mut self, _: TriangleId, c: &Sweeper) {
        self.look("legalized", c)
    }
}
fn k_front(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    let n = c.n() as u64;
    let mut o = Front {
        r: Rng::new(aux, 17),
        err: None,
        saved: vec![],
        every: 1 + n / 60,
        tick: 0,
        queries: 0,
        stale: 0,
        outside: 0,
        coords: c.all(),
    };
    let r = run::indices_observed(c, &mut o);
    if let Some(e) = o.err {
        return V::Bad(e);
    }
    if let Err(e) = r {
        return V::Bad(e);
    }
    ctx.add("queries_compared", o.queries);
    ctx.add("queries_with_covered_nodes", o.stale);
    ctx.add("queries_outside_the_front", o.outside);
    V::Held(o.stale > 0)
}

// ---- C08: safe calls with anything ----
/// ids of another, larger triangulation: points, and nodes of its front
struct Foreign {
    points: Vec<PointId>,
    nodes: Vec<Saved>,
    events: usize,
}
impl Observer for Foreign {
    fn enter_point_event(&mut self, _: PointId, c: &Sweeper) {
        if self.points.is_empty() {
            self.points = c.points.iter().map(|p| p.0).filter(|p| p.as_usize() % 37 == 0).collect();
        }
        self.events += 1;
        let len = c.advancing_front.iter().count();
        for i in [0, len / 2, len - 1] {
            if self.events % 16 != 8 {
                break;
            }
            if let Some(n) = c.advancing_front.nth(i) {
                let id = n.get_node_id();
                self.nodes.push(Box::new(move |c| {
                    let af = &c.advancing_front;
                    [sig!(af.get_node_with_id(id)), sig!(af.locate_next_node(id)), sig!(af.locate_prev_node(id))]
                }));
            }
        }
        if cfg!(miri) {
            // the ids are all that is wanted
            panic!("enough");
        }
    }
}
thread_local! {
    static FOREIGN: Foreign = {
        let mut f = Foreign { points: vec![], nodes: vec![], events: 0 };
        let n = if cfg!(miri) { 120 } else { 400 };
        let mut p: Vec<Point> = (0..n).map(|i| Point::new(i as Float, ((i * 7) % 5) as Float * 0.1 + (i % 2) as Float)).collect();
        p.push(Point::new(n as Float, 1e4 as Float));
        let _ = guard(|| poly2tri_rs::Builder::new(p).build().triangulate_with_observer(&mut f).count());
        f
    };
}
struct Probe {
    r: Rng,
    probes: usize,
    panics: usize,
    saved: Vec<Saved>,
    level: u64,
    sink: u64,
    left: u64,
    suspect: u32,
}
impl Probe {
    /// oddities that valid input never shows: where two references to one
    /// triangle, or an index out of range, are likely if a check is missing
    fn oddities(&mut self, t: TriangleId, o: TriangleId, c: &Sweeper) {
        if cfg!(miri) {
            return;
        }
        let (Some(a), Some(b)) = (t.try_get(c.triangles), o.try_get(c.triangles)) else {
            self.suspect |= 1;
            return;
        };
        if t == o {
            self.suspect |= 1;
        }
        let mut v: Vec<usize> = vec![];
        for (x, other) in [(a, o), (b, t)] {
            for n in x.neighbors {
                if n == other || n.invalid() {
                    continue;
                }
                if n == t || n == o || n.try_get(c.triangles).is_none() {
                    self.suspect |= 4;
                }
                v.push(n.as_usize());
            }
        }
        v.sort();
        if v.windows(2).any(|w| w[0] == w[1]) {
            self.suspect |= 2;
        }
    }
    fn mesh_oddities(&mut self, c: &Sweeper) {
        if cfg!(miri) {
            return;
        }
        for (id, t) in c.triangles.iter() {
            for k in 0..3 {
                let (n, m) = (t.neighbors[k], t.neighbors[(k + 1) % 3]);
                if !n.invalid() && (n == m || n == id || n.try_get(c.triangles).is_none()) {
                    self.suspect |= 8;
                    return;
                }
            }
        }
    }
    fn poke(&mut self, c: &Sweeper) {
        if self.left == 0 {
            // endless run: give up on it
            panic!("too many events");
        }
        self.left -= 1;
        if !self.r.chance(self.level, 64) {
            return;
        }
        self.probes += 1;
        let mut s = 0u64;
        let r = &mut self.r;
        let saved = &mut self.saved;
        let len = c.triangles.len();
        let done = guard(|| match r.below(14) {
            0 => {
                let k = *r.pick(&[0, len.saturating_sub(1), len, len + 1, usize::MAX - 1, usize::MAX, usize::MAX / 64]);
                s += TriangleId::from_index(k).try_get(c.triangles).map_or(0, |t| t.points[0].as_u32() as u64);
            }
            1 => {
                let k = *r.pick(&[0, len.saturating_sub(1), len, len + 1, usize::MAX - 1, usize::MAX, usize::MAX / 64]);
                let t = TriangleId::from_index(k).get(c.triangles);
                s += t.points[2].as_u32() as u64 + t.interior as u64;
            }
            2 => {
                let k = *r.pick(&[len, len + 7, usize::MAX, usize::MAX / 40 + 1]);
                s += c.triangles.get_unchecked(TriangleId::from_index(k)).points[1].as_u32() as u64;
            }
            3 => {
                let v = [-1e300, -5., 0., 0.5, 77., 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
                let p = Point::new(*r.pick(&v) as Float, *r.pick(&v) as Float);
                s += c.advancing_front.locate_node(p).map_or(0, |n| n.point_id().as_u32() as u64);
            }
            4 => {
                let v = [-1e300, -5., 0., 0.5, 77., 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
                let p = Point::new(*r.pick(&v) as Float, *r.pick(&v) as Float);
                s += c.advancing_front.get_node(p).map_or(0, |n| n.point_id().as_u32() as u64);
            }
            5 => {
                let k = *r.pick(&[0, 1, 2, 3, 1000, usize::MAX, usize::MAX - 1]);
                if let Some(n) = c.advancing_front.nth(k) {
                    s += n.next().map_or(0, |n| n.point_id().as_u32() as u64);
                    s += n.prev().map_or(0, |n| n.point_id().as_u32() as u64);
                    let id = n.get_node_id();
                    if saved.len() < 64 {
                        saved.push(Box::new(move |c| {
                            let af = &c.advancing_front;
                            [
                                sig!(af.get_node_with_id(id)),
                                sig!(af.locate_next_node(id)),
                                sig!(af.locate_prev_node(id)),
                            ]
                        }));
                    }
                }
            }
            6 | 7 => {
                if !saved.is_empty() {
                    let k = r.below(saved.len() as u64) as usize;
                    for x in saved[k](c).into_iter().flatten() {
                        s ^= x.1 ^ x.2 ^ x.0 as u64;
                    }
                }
            }
            12 => FOREIGN.with(|f| {
                let p = *r.pick(&f.points);
                s += c.points.get_point(p).map_or(0, |p| p.x.to_bits() as u64);
                let t = TriangleId::from_index(r.below(len.max(1) as u64) as usize).get(c.triangles);
                s += t.point_index(p).map_or(0, |i| i as u64);
                s += match r.below(4) {
                    0 => t.point_cw(p).as_u32() as u64,
                    1 => t.neighbor_across(p).as_usize() as u64,
                    2 => t.constrained_edge_cw(p) as u64,
                    _ => t.edge_index(p, t.points[0]).map_or(0, |i| i as u64),
                };
            }),
            13 => FOREIGN.with(|f| {
                if !f.nodes.is_empty() {
                    for x in r.pick(&f.nodes)(c).into_iter().flatten() {
                        s ^= x.1 ^ x.2 ^ x.0 as u64;
                    }
                }
            }),
            8 => s += c.illegal_triangles().len() as u64,
            9 => s += c.verify_triangles() as u64,
            10 => {
                for n in c.advancing_front.iter() {
                    s ^= n.point().x.to_bits() as u64;
                    if let Some(t) = n.triangle {
                        s += t.try_get(c.triangles).map_or(0, |t| t.points[0].as_u32() as u64);
                    }
                }
            }
            _ => {
                for (_, t) in c.triangles.iter() {
                    for p in t.points {
                        s ^= c.points.get_point(p).map_or(0, |p| p.x.to_bits() as u64);
                        s += p.as_usize() as u64;
                    }
                    for (k, n) in t.neighbors.iter().enumerate() {
                        s += n.try_get(c.triangles).map_or(0, |t| t.is_constrained(k) as u64);
                    }
                }
                for (p, q, e) in c.points.iter() {
                    s ^= q.y.to_bits() as u64 + p.as_usize() as u64 + e.count() as u64;
                }
                for k in [0, 1, c.points.len(), usize::MAX] {
                    s += c.points.get_id_by_y(k).map_or(0, |p| p.as_u32() as u64);
                }
                s += c.points.points().len() as u64 + c.points.points_without_fake().len() as u64;
            }
        });
        self.panics += done.is_err() as usize;
        self.sink ^= std::hint::black_box(s);
    }
}
impl Observer for Probe {
    fn enter_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.poke(c)
    }
    fn exit_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.poke(c)
    }
    fn edge_event(&mut self, _: Edge, c: &Sweeper) {
        self.mesh_oddities(c);
        self.poke(c)
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        self.mesh_oddities(c);
        self.poke(c)
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.poke(c)
    }
    fn will_legalize(&mut self, _: TriangleId, c: &Sweeper) {
        self.poke(c)
    }
    fn legalize_step(&mut self, _: TriangleId, c: &Sweeper) {
        self.poke(c)
    }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, c: &Sweeper) {
        self.oddities(t, o, c);
        self.poke(c)
    }
    fn legalized(&mut self, _: TriangleId, c: &Sweeper) {
        self.poke(c)
    }
}
fn g_hostile(r: &mut Rng, i: u64) -> Case {
    if i % 5 == 4 {
        // valid input too: foreign ids and queries are legal there as well
        let mut c = gen::mix(r, i % 12, 40, ANY);
        c.family = "valid".into();
        return c;
    }
    let n = if i % 16 == 3 { 200 } else { 40 };
    hostile::generate(r, n, 3)
}
/// small enough for the interpreter
fn g_tiny(r: &mut Rng, i: u64) -> Case {
    if i % 8 == 7 {
        let mut c = gen::mix(r, 0, 10, ANY);
        c.family = "valid".into();
        return c;
    }
    hostile::generate(r, 5 + (i % 8) as usize, 6)
}
/// any outcome but undefined behaviour is fine
fn k_hostile(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    let mut o = Probe {
        r: Rng::new(aux, 8),
        probes: 0,
        panics: 0,
        saved: vec![],
        level: if cfg!(miri) { 2 } else { 16 },
        sink: 0,
        left: if cfg!(miri) { 3000 } else { 50_000 },
        suspect: 0,
    };
    let r = guard(|| {
        let mut t = run::cdt(c).triangulate_with_observer(&mut o);
        let idx = t.triangle_list_indices();
        let mut s = 0u64;
        for &i in &idx {
            s ^= t.points()[i as usize].x.to_bits() as u64;
        }
        while let Some(tr) = t.next() {
            s ^= tr.points[1].y.to_bits() as u64;
        }
        std::hint::black_box((s, t.data().len()));
        idx.len()
    });
    ctx.suspect = o.suspect;
    let calls = (if cfg!(miri) { 3000 } else { 50_000 }) - o.left;
    if let (Err(e), true) = (&r, calls as usize * 2 > c.n()) {
        // one kind per place that panics
        ctx.suspect |= 16 | e.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) << 8;
    }
    ctx.add("cases_with_an_odd_mesh", (o.suspect != 0) as usize);
    ctx.add("observer_probes", o.probes);
    ctx.add("observer_probes_refused_by_panic", o.panics);
    let key = match &r {
        Ok(0) => "ended_with_no_triangles",
        Ok(_) => "ended_with_triangles",
        Err(_) => "ended_in_a_panic",
    };
    ctx.add(key, 1);
    V::Held(o.probes > 0 || (!cfg!(miri) && c.invalid().is_some()))
}

fn g_mid(r: &mut Rng, i: u64) -> Case {
    gen::mix(r, i % 12, 90, ANY)
}

fn g_xmid(r: &mut Rng, i: u64) -> Case {
    // the extreme generator's small cases
    gen::extreme(r, i - i % 8 + i % 7)
}

const R_LMID: &str = "38 families of 100 to 1500 points, some with as many free points, in any orientation";

fn g_lmid(r: &mut Rng, i: u64) -> Case {
    gen::large_n(r, i, 120, if i % 8 == 0 { 1500 } else { 400 })
}

fn main() {
    let _: BTreeMap<(), ()> = Default::default();
    drive::main(vec![
        Mode { name: "state", gen: g_mid, check: k_state, valid: true, rule: R_MIX },
        Mode { name: "selfcheck", gen: g_mid, check: k_selfcheck, valid: true, rule: "random valid polygons; non-trivial: at least one compared state contained an illegal pair" },
        Mode { name: "front", gen: g_mid, check: k_front, valid: true, rule: "random valid polygons; non-trivial: at least one query used the id of a node that had left the front" },
        Mode { name: "xstate", gen: g_xmid, check: k_state, valid: true, rule: R_X },
        Mode { name: "xselfcheck", gen: g_xmid, check: k_selfcheck, valid: true, rule: R_X },
        Mode { name: "xfront", gen: g_xmid, check: k_front, valid: true, rule: R_X },
        Mode { name: "lstate", gen: g_lmid, check: k_state, valid: true, rule: R_LMID },
        Mode { name: "lselfcheck", gen: g_lmid, check: k_selfcheck, valid: true, rule: R_LMID },
        Mode { name: "lfront", gen: g_lmid, check: k_front, valid: true, rule: R_LMID },
        Mode { name: "hostile", gen: g_hostile, check: k_hostile, valid: false, rule: "23 kinds of invalid input (crossing, duplicate, nested, collinear, NaN, infinite, empty ...) and valid input, with an observer that calls every reachable safe method with foreign ids, far points and stale nodes; non-trivial: invalid, or probed" },
        Mode { name: "tiny", gen: g_tiny, check: k_hostile, valid: false, rule: "as hostile, at most some 20 points: 23 kinds of invalid input (crossing, duplicate, nested, collinear, NaN, infinite, empty ...) and valid input, with an observer that calls every reachable safe method with foreign ids, far points and stale nodes; non-trivial: invalid, or probed" },
    ]);
}
