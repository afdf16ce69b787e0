mod poly;
use poly2tri_rs::loader::{Loader, PlainFileLoader};
use std::io::Write;
extern "C" {
    fn setfsuid(uid: u32) -> i32;
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}
// what is loaded depends on the bytes the path delivers only: through a pipe, for a user
// who may only read it, while other threads load other files
fn main() {
    let dir = std::path::Path::new("/tmp").join(format!("demo-load-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let name = |n: &str| dir.join(n).to_str().unwrap().to_string();
    let text = |k: usize| {
        let mut s = format!("0 0\n{0} 0\n{0} {0}\n0 {0}\nSTEINER\n", 10 * k);
        for i in 1..3 * k {
            s += &format!("{} {}\n", i, (i * 7 % 11) as f64 + 0.5);
        }
        s
    };
    let expected = |k: usize| poly::parse(&text(k)).all().iter().map(|p| (p.x.to_bits(), p.y.to_bits())).collect::<Vec<_>>();
    let got = |path: &str| {
        let t = PlainFileLoader::default().load(path).expect("well-formed").build().triangulate();
        t.points().iter().map(|p| (p.x.to_bits(), p.y.to_bits())).collect::<Vec<_>>()
    };
    // a file that may only be read
    let ro = name("ro");
    std::fs::write(&ro, text(2)).unwrap();
    let mut perm = std::fs::metadata(&ro).unwrap().permissions();
    perm.set_readonly(true);
    std::fs::set_permissions(&ro, perm).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&dir, PermissionsExt::from_mode(0o755)).unwrap();
    std::fs::set_permissions(&ro, PermissionsExt::from_mode(0o444)).unwrap();
    let r = ro.clone();
    std::thread::spawn(move || unsafe { setfsuid(65534); std::fs::File::open(&r).is_ok().then(|| PlainFileLoader::default().load(&r).is_ok()) })
        .join()
        .unwrap()
        .map(|ok| assert!(ok, "may be read, but is not loaded"));
    // a pipe
    let fifo = name("fifo");
    let c = std::ffi::CString::new(fifo.clone()).unwrap();
    if unsafe { mkfifo(c.as_ptr(), 0o644) } == 0 {
        let f = fifo.clone();
        let t = text(3);
        let w = std::thread::spawn(move || {
            let mut f = std::fs::OpenOptions::new().write(true).open(f).unwrap();
            let (a, b) = t.as_bytes().split_at(t.len() / 2);
            let _ = f.write_all(a);
            std::thread::sleep(std::time::Duration::from_millis(100));
            let _ = f.write_all(b);
        });
        assert_eq!(got(&fifo), expected(3), "through a pipe");
        w.join().unwrap();
    }
    // several at the same time
    let files: Vec<(String, usize)> = (1..7).map(|k| (name(&format!("f{k}")), k * 2)).collect();
    for (f, k) in &files {
        std::fs::write(f, text(*k)).unwrap();
    }
    std::thread::scope(|s| {
        for (f, k) in &files {
            let (want, got) = (expected(*k), &got);
            s.spawn(move || {
                for _ in 0..2000 {
                    assert_eq!(got(f), want, "beside other threads");
                }
            });
        }
    });
    std::fs::remove_dir_all(&dir).unwrap();
}
