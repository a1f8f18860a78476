use super::*;
pub fn case(kind: &str, _r: &mut Rng) -> (Result<bool, String>, String) {
    eprintln!("unknown kind {kind}");
    std::process::exit(2)
}
