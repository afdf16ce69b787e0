mod poly;
use poly2tri_rs::loader::{Loader, PlainFileLoader};
use poly2tri_rs::Float;
// decimals next to the middle between two floats
fn main() {
    let path = std::env::temp_dir().join(format!("demo-{}.dat", std::process::id()));
    let path = path.to_str().unwrap();
    for (text, x) in [
        ("1.00000005960464477539062500000000000000000000000001", 1. + Float::EPSILON * (std::mem::size_of::<Float>() == 4) as u8 as Float),
        ("1.0000001788139343261718749999999999999999999999999999", 0.),
        ("-3.00000011920928955078124999999999999999999999999999999", 0.),
        ("0.1", 0.),
    ] {
        let want: Float = text.parse().unwrap();
        assert!(x == 0. || x == want || std::mem::size_of::<Float>() == 8);
        std::fs::write(path, format!("-10 -10\n10 -11\n12 10\n-10 13\nSTEINER\n{text} 0.5\n")).unwrap();
        let t = PlainFileLoader::default().load(path).unwrap().build().triangulate();
        assert_eq!(t.points()[4].x.to_bits(), want.to_bits(), "{text} loaded as {}, not {want}", t.points()[4].x);
    }
    let _ = poly::parse("0 0\n1 0\n0 1\n");
    std::fs::remove_file(path).unwrap();
}
