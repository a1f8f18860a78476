pub use y86_dbg::SimOption;
mod verif { include!(env!("Y86_VERIF_RS")); }
fn main() {
    let a = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in verif::HARNESSES { if *n == a { f() } }
}
