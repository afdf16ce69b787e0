mod poly;
fn main() {
    let p = poly::parse(include_str!("input.txt"));
    // on a thread with the default stack
    std::thread::spawn(move || poly::check(&p, &poly::tris(&p.cdt().triangulate().triangle_list_indices()))).join().unwrap();
}
