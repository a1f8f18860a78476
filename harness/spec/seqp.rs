type A = crate::architectures::builtin::seq_plus_std::Arch;

/// program counter of the instruction the next cycle executes (abstraction function: SEQ+ keeps
/// the previous instruction's results and selects the pc from them)
fn next_pc(x: &PipeSim<A>) -> u64 {
    let s = &x.cur_state.s;
    match s.icode {
        8 => s.valC,
        7 if s.cnd => s.valC,
        9 => s.valM,
        _ => s.valP,
    }
}
fn havoc_state(x: &mut PipeSim<A>) {
    let s = &mut x.cur_state.s;
    s.icode = any_nibble();
    s.cnd = any_bool();
    s.valC = any_u64();
    s.valM = any_u64();
    s.valP = any_u64();
}
