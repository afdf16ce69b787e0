mod poly;
use poly2tri_rs::loader::{Loader, PlainFileLoader};
use poly2tri_rs::{Builder, Edge, Observer, Point, PointId, Sweeper};
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
// live bytes before and after
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = l.size() as isize;
        PEAK.fetch_max(LIVE.fetch_add(n, Relaxed) + n, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn live() -> isize {
    LIVE.load(Relaxed)
}
struct Stop(usize);
impl Observer for Stop {
    fn exit_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.0 -= 1;
        if self.0 == 0 {
            resume_unwind(Box::new(()));
        }
    }
    fn edge_event(&mut self, _: Edge, _: &Sweeper) {}
}
struct Flips(isize);
impl Observer for Flips {
    fn triangle_rotated(&mut self, _: poly2tri_rs::TriangleId, _: poly2tri_rs::TriangleId, _: &Sweeper) {
        self.0 += 1;
    }
}
fn balanced(what: &str, mut f: impl FnMut()) {
    let a = live();
    let _ = catch_unwind(AssertUnwindSafe(&mut f));
    let b = live();
    assert!(a == b, "{what}: {} bytes are not given back", b - a);
}
fn saw(n: usize) -> Vec<Point> {
    // long teeth next to each other, segments cross many triangles
    let mut v = vec![];
    for i in 0..n {
        let x = i as f64 + (i * i % 7) as f64 * 0.05;
        v.push(Point::new(x as _, (i * 37 % 11) as f64 as _));
        v.push(Point::new((x + 0.6) as _, (3000 + i * 53 % 13) as f64 as _));
    }
    v.push(Point::new((n + 5) as f64 as _, -20.));
    v.push(Point::new(-5., -21.));
    v
}
/// a hill over a bowl: all flips in few edge events
fn fan(n: usize) -> Vec<Point> {
    let mut v: Vec<Point> = (0..n)
        .map(|i| {
            let t = -1. + 2. * i as f64 / (n - 1) as f64;
            Point::new((t * 1e3) as _, (t * t * 1e3) as _)
        })
        .collect();
    v.push(Point::new(1e3 as _, 1100.));
    v.push(Point::new(-1e3 as _, 1101.));
    v
}
fn comb(n: usize) -> Vec<Point> {
    let mut v = vec![];
    for i in 0..n {
        v.push(Point::new((3 * i) as f64 as _, (i * 7 % 5) as f64 as _));
        v.push(Point::new((3 * i + 1) as f64 as _, 2000. + (i * 11 % 17) as f64 as poly2tri_rs::Float));
        v.push(Point::new((3 * i + 2) as f64 as _, 2001. - (i * 5 % 13) as f64 as poly2tri_rs::Float));
    }
    v.push(Point::new((3 * n) as f64 as _, -100.));
    v.push(Point::new(-1., -101.));
    v
}
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    let mut inputs = vec![p.all(), saw(300), fan(300), comb(300)];
    inputs[0] = p.outer.clone();
    // what is set up once
    let small = || Builder::<()>::new(vec![Point::new(0., 0.), Point::new(9., 1.), Point::new(4., 8.)]).build();
    drop(small().triangulate());
    let _ = catch_unwind(|| drop(small().triangulate_with_observer(&mut Stop(1))));
    let _ = PlainFileLoader::default().load("/nonexistent/file");
    for v in &inputs {
        balanced("run", || drop(Builder::<()>::new(v.clone()).build().triangulate()));
        balanced("indices", || drop(Builder::<()>::new(v.clone()).build().triangulate().triangle_list_indices()));
        balanced("builder", || drop(Builder::<()>::new(v.clone()).clone()));
        for k in [1, 2, v.len() / 2] {
            balanced("panic of the observer", || {
                let mut o = Stop(k);
                drop(Builder::<()>::new(v.clone()).build().triangulate_with_observer(&mut o));
            });
        }
    }
    balanced("given case", || drop(p.cdt().triangulate()));
    for n in [200, 800] {
        for f in [saw, fan, comb] {
            let v = f(n);
            let k = v.len();
            let a = live();
            PEAK.store(a, Relaxed);
            let t = Builder::<()>::new(v).build().triangulate();
            let peak = PEAK.load(Relaxed) - a;
            drop(t);
            assert!(peak < 16384 + 5000 * k as isize, "{peak} bytes for {k} points");
        }
    }
    let mut flips = Flips(0);
    let a = live();
    PEAK.store(a, Relaxed);
    drop(p.cdt().triangulate_with_observer(&mut flips));
    let peak = PEAK.load(Relaxed) - a;
    let n = p.all().len() as isize;
    assert!(peak < 16384 + 2000 * n + 100 * flips.0, "{peak} bytes for {n} points and {} rotations", flips.0);
    // files, in this program's own directory
    let dir = std::env::temp_dir().join(format!("mem-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let open = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let mut bad = None;
    for (name, bytes) in [
        ("good", &b"0 0\n10 1\n4 9\nSTEINER\n5 3\n"[..]),
        ("word", b"0 0\n10 x\n4 9\n"),
        ("utf8", b"0 0\n10 \xff\n4 9\n"),
        ("empty", b""),
        ("missing", b""),
    ] {
        let path = dir.join(name);
        if name != "missing" {
            std::fs::write(&path, bytes).unwrap();
        }
        let path = path.to_str().unwrap().to_string();
        let (a, m) = (open(), catch_unwind(|| {
            balanced(name, || drop(PlainFileLoader::default().load(&path)));
        }));
        if m.is_err() || open() != a {
            bad = Some(name);
        }
    }
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(bad.is_none(), "loading {bad:?} keeps memory or a file");
}
