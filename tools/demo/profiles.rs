mod poly;
// prints a digest of the result, to be compared between build profiles
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    let idx = p.cdt().triangulate().triangle_list_indices();
    poly::check(&p, &poly::tris(&idx));
    println!("{idx:?}");
}
