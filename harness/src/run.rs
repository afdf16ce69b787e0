//! Calling the library under test: panics are caught and turned into text.
use crate::case::{self, Case};
use crate::exact::P;
use crate::oracle::Tri;
use poly2tri_rs::{Builder, Observer, CDT};
use std::cell::RefCell;
use std::panic;

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hook() {
    panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // aborting panics (unsafe preconditions) never come back: print now
        if msg.contains("unsafe precondition") {
            eprintln!("UB {loc}: {msg}");
        }
        let _ = LAST.try_with(|l| *l.borrow_mut() = format!("{} at {}", msg.replace('\n', " "), loc));
    }));
}

/// run f; a panic becomes Err("panic: message at file:line")
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", LAST.with(|l| l.borrow().clone()))),
    }
}

pub fn cdt(c: &Case) -> CDT<()> {
    let mut b = Builder::new(case::pts(&c.outer));
    for h in &c.holes {
        b = b.add_hole(case::pts(h));
    }
    b.add_steiner_points(case::pts(&c.steiner)).build()
}

pub fn tris(idx: &[u32]) -> Vec<Tri> {
    idx.chunks(3).map(|c| [c[0], c[1], c[2]]).collect()
}

/// triangulate, indices only
pub fn indices(c: &Case) -> Result<Vec<Tri>, String> {
    guard(|| tris(&cdt(c).triangulate().triangle_list_indices()))
}

pub fn indices_observed(c: &Case, o: &mut dyn Observer) -> Result<Vec<Tri>, String> {
    guard(|| tris(&cdt(c).triangulate_with_observer(o).triangle_list_indices()))
}

/// triangles as sorted coordinate triples, sorted: independent of point numbering
pub fn geometry(all: &[P], t: &[Tri]) -> Vec<[(u64, u64); 3]> {
    let key = |p: P| ((p.0 + 0.).to_bits(), (p.1 + 0.).to_bits());
    let mut v: Vec<[(u64, u64); 3]> = t
        .iter()
        .map(|t| {
            let mut k = [key(all[t[0] as usize]), key(all[t[1] as usize]), key(all[t[2] as usize])];
            k.sort();
            k
        })
        .collect();
    v.sort();
    v
}

/// drop what is kept of the last panic
pub fn forget() {
    LAST.with(|l| *l.borrow_mut() = String::new());
}
