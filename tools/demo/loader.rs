mod poly;
use poly2tri_rs::loader::{Loader, LoaderError, PlainFileLoader};
// files in several layouts load to what they say, damaged ones give an error
fn main() {
    let path = std::env::temp_dir().join(format!("demo-{}.dat", std::process::id()));
    let path = path.to_str().unwrap();
    let load = |bytes: &[u8]| {
        std::fs::write(path, bytes).unwrap();
        PlainFileLoader::default().load(path)
    };
    let outer = "0 0\n10 0\n10.0 1e1\n0 +10\n";
    let h1 = "HOLE\n1 1\n2 1\n1 2\n";
    let h2 = "HOLE\r\n5\t5\r\n\r\n 6 5 \r\n5 6\r\n";
    let st = "STEINER\n8 8\n8.5 -0\n-1.2345678901234567e-5 3.0000000000000004\n";
    let st2 = "STEINER\n7 3\n7 -3\n-1039.3511984516363 -1569.2375458072434\n4.35e0 0.30000000000000004\n";
    let bits = |t: &[poly2tri_rs::Point]| t.iter().map(|p| (p.x.to_bits(), p.y.to_bits())).collect::<Vec<_>>();
    for v in [vec![], vec![h1], vec![st], vec![h1, h2, st], vec![st, h1, h2], vec![h1, st, h2, st2], vec![st, h2, st2, h1]] {
        let text = format!("{outer}{}", v.concat());
        let order: Vec<&str> = v.iter().filter(|s| s.starts_with("HOLE")).chain(v.iter().filter(|s| !s.starts_with("HOLE"))).copied().collect();
        let p = poly::parse(&format!("{outer}{}", order.concat()));
        let t = load(text.as_bytes()).expect("well-formed").build().triangulate();
        assert_eq!(bits(t.points()), bits(&p.all()), "{text}");
        assert_eq!(t.triangle_list_indices(), p.cdt().triangulate().triangle_list_indices(), "{text}");
    }
    // rewritten, with the same length
    for x in ["1.5", "2.5", "1.5"] {
        let t = load(format!("{outer}STEINER\n{x} 4\n").as_bytes()).unwrap().build().triangulate();
        assert_eq!(t.points()[4].x, x.parse().unwrap(), "stale content");
    }
    for bad in ["5", "5 5,", "5 5;", "5, 5", "a 5", "5 a", "HOLES", "HOLE x", "hole", "1,5 2", "1,5 2,5", "0x1 2", "1 2f", "STEINER:"] {
        for text in [format!("{bad}\n{outer}"), format!("{outer}{bad}\n"), format!("{outer}{h1}{bad}\n")] {
            assert!(load(text.as_bytes()).is_err(), "accepted: {text}");
        }
    }
    for at in 0..outer.len() {
        let mut b = outer.as_bytes().to_vec();
        b.insert(at, 0xff);
        assert!(load(&b).is_err(), "invalid UTF-8 accepted");
    }
    let mut b = outer.replace("0 0\n", "0 0 \n").into_bytes();
    b.insert(4, 0xc3);
    assert!(load(&b).is_err(), "invalid UTF-8 accepted");
    std::fs::remove_file(path).unwrap();
    assert!(matches!(PlainFileLoader::default().load(path), Err(LoaderError::Io(_))));
}
