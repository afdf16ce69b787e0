fn main() {
    p2t_harness::drive::main(p2t_harness::modes::modes());
}
