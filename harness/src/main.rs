fn main() {
    let a = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in y86_sim::architectures::verif::HARNESSES { if *n == a { f() } }
}
