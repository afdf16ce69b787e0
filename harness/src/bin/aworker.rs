//! Memory and other resources: a counting allocator around the calls.
use p2t_harness::case::{self, Case};
use p2t_harness::drive::{self, Ctx, Mode, V};
use p2t_harness::gen::{self, Where};
use p2t_harness::hostile;
use p2t_harness::modes::{R_MIX, R_X};
use p2t_harness::rng::Rng;
use p2t_harness::run;
use poly2tri_rs::loader::{Loader, PlainFileLoader};
use poly2tri_rs::{Builder, Edge, Observer, PointId, Sweeper, TriangleId, CDT};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}
struct Counting;
fn took(n: isize, blocks: isize) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
    if n > 0 {
        let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            took(l.size() as isize, 1);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            took(l.size() as isize, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        took(-(l.size() as isize), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // old and new may both be there for a moment
            took(n as isize, 0);
            took(-(l.size() as isize), 0);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Mark {
    live: isize,
    blocks: isize,
}
fn mark() -> Mark {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
    CALLS.with(|c| c.set(0));
    now()
}
fn now() -> Mark {
    Mark { live: LIVE.with(|l| l.get()), blocks: BLOCKS.with(|l| l.get()) }
}
impl Mark {
    fn since(&self) -> isize {
        now().live - self.live
    }
    fn peak(&self) -> isize {
        PEAK.with(|p| p.get()) - self.live
    }
    fn back(&self, what: &str) -> Result<(), String> {
        let n = now();
        if n == *self {
            return Ok(());
        }
        Err(format!("{what}: {} bytes in {} blocks are not given back", n.live - self.live, n.blocks - self.blocks))
    }
}

/// counts, and panics at a chosen callback; allocates nothing
#[derive(Default)]
struct Watch {
    events: u64,
    rotations: u64,
    stop: u64,
    peak: isize,
}
impl Watch {
    fn step(&mut self) {
        self.events += 1;
        self.peak = self.peak.max(LIVE.with(|l| l.get()));
        if self.events == self.stop {
            // no message: nothing to allocate
            std::panic::resume_unwind(Box::new(()));
        }
    }
}
impl Observer for Watch {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.step()
    }
    fn exit_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.step()
    }
    fn edge_event(&mut self, _: Edge, _: &Sweeper) {
        self.step()
    }
    fn will_legalize(&mut self, _: TriangleId, _: &Sweeper) {
        self.step()
    }
    fn triangle_rotated(&mut self, _: TriangleId, _: TriangleId, _: &Sweeper) {
        self.rotations += 1;
        self.step()
    }
    fn legalize_step(&mut self, _: TriangleId, _: &Sweeper) {
        self.step()
    }
    fn legalized(&mut self, _: TriangleId, _: &Sweeper) {
        self.step()
    }
    fn sweep_done(&mut self, _: &Sweeper) {
        self.step()
    }
    fn finalized(&mut self, _: &Sweeper) {
        self.step()
    }
}

/// what is set up once per process does not count
fn warm() {
    thread_local! { static DONE: Cell<bool> = const { Cell::new(false) }; }
    if DONE.with(|d| d.replace(true)) {
        return;
    }
    let c = Case { outer: vec![(0., 0.), (10., 1.), (4., 9.)], steiner: vec![(5., 3.)], ..Default::default() };
    let _ = run::indices(&c);
    let _ = run::guard(|| panic!("warm up"));
    let _ = catch_unwind(|| std::panic::resume_unwind(Box::new(())));
    run::forget();
}

fn builder(c: &Case) -> Builder {
    let mut b = Builder::new(case::pts(&c.outer));
    for h in &c.holes {
        b = b.add_hole(case::pts(h));
    }
    b.add_steiner_points(case::pts(&c.steiner))
}

/// bytes that n points and so many rotations may take
fn bound(n: usize, rotations: u64) -> isize {
    (BASE + PER_POINT * n + 100 * rotations as usize) as isize
}
const BASE: usize = 16 << 10;
const PER_POINT: usize = 2000;

fn memory(ctx: &mut Ctx, c: &Case, aux: u64) -> Result<bool, String> {
    warm();
    let n = c.n();
    let mut r = Rng::new(aux, 19);
    let lost = |e: Box<dyn std::any::Any + Send>| {
        drop(e);
        run::forget();
    };
    // all the way, everything dropped at the end
    let m = mark();
    let mut w = Watch::default();
    let mut kept = 0;
    let mut left = 0;
    let got = catch_unwind(AssertUnwindSafe(|| {
        let t = builder(c).build().triangulate_with_observer(&mut w);
        kept = m.since();
        let v = t.triangle_list_indices();
        drop(t);
        left = m.since() - (v.capacity() * 4) as isize;
        v.len()
    }));
    let peak = m.peak();
    let calls = CALLS.with(|c| c.get());
    let len = match got {
        Ok(k) => k,
        Err(e) => {
            lost(e);
            return Err("panic".into());
        }
    };
    m.back("after a run")?;
    if left != 0 {
        return Err(format!("{left} bytes are left besides the indices after the result was dropped"));
    }
    if peak > bound(n, w.rotations) {
        return Err(format!("{peak} bytes at once for {n} points"));
    }
    if kept > bound(n, 0) / 2 {
        return Err(format!("the result of {n} points keeps {kept} bytes"));
    }
    ctx.max("max_bytes_per_point", ((peak - 4096).max(0) as usize) / n);
    ctx.max("max_percent_of_bound", (peak * 100 / bound(n, w.rotations)) as usize);
    ctx.max("max_result_bytes_per_point", ((kept - 4096).max(0) as usize) / n);
    ctx.max("max_allocations_per_100_points", (calls.saturating_sub(40)) * 100 / n);
    ctx.add("runs", 1);
    ctx.add("allocations_seen", calls);
    let events = w.events;
    // dropped on the way
    let m = mark();
    let stop = 1 + r.below(events);
    let kind = r.below(6);
    let got = catch_unwind(AssertUnwindSafe(|| match kind {
        0 => drop(builder(c)),
        1 => drop(builder(c).build()),
        2 => {
            let b = builder(c);
            let d: CDT<()> = b.clone().build();
            let e = d.clone();
            drop(d.triangulate());
            drop(b);
            let mut t = e.triangulate();
            for _ in 0..r.below(len as u64 + 3) {
                t.next();
            }
        }
        _ => {
            let mut w = Watch { stop, ..Default::default() };
            drop(builder(c).build().triangulate_with_observer(&mut w));
        }
    }));
    match got {
        Ok(()) if kind < 3 => ctx.add("early_drops", 1),
        Err(e) if kind >= 3 => {
            lost(e);
            ctx.add("observer_panics", 1);
        }
        Ok(()) => return Err("the observer's panic did not arrive".into()),
        Err(e) => {
            lost(e);
            return Err("panic".into());
        }
    }
    m.back(["after dropping a builder", "after dropping a CDT", "after clones and a partial iteration"].get(kind as usize).unwrap_or(&"after a panic of the observer"))?;
    Ok(len > 3)
}
fn k_memory(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    memory(ctx, c, aux).map_or_else(V::Bad, V::Held)
}

/// invalid input: whatever comes of it, nothing stays behind
fn k_hmemory(ctx: &mut Ctx, c: &Case, _: u64) -> V {
    warm();
    let m = mark();
    let got = catch_unwind(AssertUnwindSafe(|| {
        let mut t = builder(c).build().triangulate();
        let v = t.triangle_list_indices();
        t.next();
        v.len()
    }));
    let panicked = match got {
        Ok(_) => false,
        Err(e) => {
            drop(e);
            run::forget();
            true
        }
    };
    if let Err(e) = m.back(if panicked { "after a panic" } else { "after a run" }) {
        return V::Bad(e);
    }
    ctx.add(if panicked { "panics" } else { "runs" }, 1);
    V::Held(true)
}

fn entries(dir: &str) -> usize {
    std::fs::read_dir(dir).map_or(0, |d| d.count())
}

/// loading, also what cannot be loaded
fn files(ctx: &mut Ctx, c: &Case, aux: u64) -> Result<bool, String> {
    warm();
    let mut r = Rng::new(aux, 19);
    let mut text = String::new();
    let put = |t: &mut String, v: &Vec<(f64, f64)>| {
        for p in v {
            t.push_str(&format!("{:?} {:?}\n", p.0, p.1));
        }
    };
    put(&mut text, &c.outer);
    for h in &c.holes {
        text.push_str("HOLE\n");
        put(&mut text, h);
    }
    if !c.steiner.is_empty() {
        text.push_str("STEINER\n");
        put(&mut text, &c.steiner);
    }
    let mut bytes = text.into_bytes();
    let kind = r.below(5);
    let at = r.below(bytes.len() as u64) as usize;
    match kind {
        0 => bytes[at] = b'x',
        1 => bytes[at] = 0xff,
        2 => bytes.truncate(at),
        _ => {}
    }
    let path = format!("{}/mem-{}.txt", ctx.scratch, std::process::id());
    std::fs::write(&path, &bytes).map_err(|e| format!("cannot write {path}: {e}"))?;
    let from = if kind == 3 && r.chance(1, 2) { format!("{path}.missing") } else { path.clone() };
    let opened = entries("/proc/self/fd");
    let m = mark();
    let got = catch_unwind(AssertUnwindSafe(|| {
        let mut l = PlainFileLoader::default();
        match l.load(&from) {
            Ok(b) => {
                drop(b.build());
                true
            }
            Err(e) => {
                drop(e);
                false
            }
        }
    }));
    let ok = match got {
        Ok(k) => k,
        Err(e) => {
            drop(e);
            run::forget();
            let _ = std::fs::remove_file(&path);
            return Err("the loader panics".into());
        }
    };
    let peak = m.peak();
    let back = m.back(if ok { "after loading" } else { "after a failed load" });
    let open = entries("/proc/self/fd");
    let _ = std::fs::remove_file(&path);
    back?;
    if open != opened {
        return Err(format!("{opened} open files before loading, {open} after it"));
    }
    if peak > (BASE + 60 * bytes.len()) as isize {
        return Err(format!("{peak} bytes at once for a file of {} bytes", bytes.len()));
    }
    ctx.max("max_bytes_per_file_byte", ((peak - 4096).max(0) as usize) / bytes.len().max(1));
    ctx.add(if ok { "files_loaded" } else { "files_refused" }, 1);
    Ok(true)
}
fn k_fmemory(ctx: &mut Ctx, c: &Case, aux: u64) -> V {
    files(ctx, c, aux).map_or_else(V::Bad, V::Held)
}

const ANY: &[Where] = &[Where::Inside, Where::InsideAndHoles, Where::Anywhere];
fn g_mid(r: &mut Rng, i: u64) -> Case {
    gen::mix(r, i, 600, ANY)
}
fn g_xmid(r: &mut Rng, i: u64) -> Case {
    gen::extreme(r, i - i % 8 + i % 7)
}
fn g_lmid(r: &mut Rng, i: u64) -> Case {
    gen::large_n(r, i, 300, if i % 8 == 0 { 70000 } else { 6000 })
}
fn g_hostile(r: &mut Rng, i: u64) -> Case {
    hostile::generate(r, 4 + (i % 60) as usize, 3)
}

fn main() {
    drive::main(vec![
        Mode { name: "memory", gen: g_mid, check: k_memory, valid: true, rule: R_MIX },
        Mode { name: "xmemory", gen: g_xmid, check: k_memory, valid: true, rule: R_X },
        Mode { name: "lmemory", gen: g_lmid, check: k_memory, valid: true, rule: "38 families of 300 to 70000 points, some with as many free points, in any orientation" },
        Mode { name: "hmemory", gen: g_hostile, check: k_hmemory, valid: false, rule: "23 kinds of invalid input" },
        Mode { name: "fmemory", gen: g_mid, check: k_fmemory, valid: true, rule: "files of all families, also damaged, cut and missing ones" },
    ]);
}
