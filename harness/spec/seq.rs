type A = crate::architectures::builtin::seq_std::Arch;

/// program counter of the instruction the next cycle executes
fn next_pc(s: &PipeSim<A>) -> u64 { s.cur_state.s.pc }
fn havoc_state(s: &mut PipeSim<A>) { s.cur_state.s.pc = any_u64(); }
