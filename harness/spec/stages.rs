// C08: pipeline registers at the clock tick, and the cycle driver around them.
use crate::framework::{CpuSim, MemData, PipeSim};
use crate::isa::{ConditionCode, RegFile, Stat};
use crate::object::BIN_SIZE;

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}

/// the same bytes
#[inline(always)]
fn eqb<T>(a: &T, b: &T) -> bool {
    let n = core::mem::size_of::<T>();
    let (p, q) = (a as *const T as *const u8, b as *const T as *const u8);
    let mut same = true;
    let mut i = 0;
    while i < n { same &= unsafe { *p.add(i) == *q.add(i) }; i += 1; }
    same
}
#[allow(unused)]
fn any_stat() -> Stat {
    match any_u8() & 7 { 0 => Stat::Aok, 1 => Stat::Bub, 2 => Stat::Hlt, 3 => Stat::Adr, _ => Stat::Ins }
}
macro_rules! arch {
    ($fun:ident, $init:ident, $m:ident, $( $r:ident { $( $f:ident = $d:expr ),* } )*) => {
        fn $fun() {
            use crate::architectures::builtin::$m::{Arch, PipeRegs};
            let mem = MemData::init([0u8; MEMZ]);
            let mut sim = Box::new(PipeSim::<Arch>::new(mem.clone(), false));
            any_mem(&mut mem.write()[..]);
            raw_any(&mut sim.cur_state);
            raw_any(&mut sim.nex_state);
            // a register told both to stall and to bubble is left unspecified
            $( sim.nex_state.$r.stall = any_bool(); sim.nex_state.$r.bubble = any_bool();
               assume(!(sim.nex_state.$r.stall & sim.nex_state.$r.bubble));
               sim.cur_state.$r.stall = any_bool(); sim.cur_state.$r.bubble = any_bool(); )*
            let n0 = any_u64();
            sim.cycle_count = n0;
            let m0 = Box::new(*mem.read());
            let r0 = sim.registers();
            let mut pre = Box::new(PipeRegs::default());
            unsafe { core::ptr::copy_nonoverlapping(&sim.cur_state as *const PipeRegs, &mut *pre, 1) };
            sim.initiate_next_cycle();
            let (cur, nex) = (&sim.cur_state, &sim.nex_state);
            $(
                let (st, bu) = (nex.$r.stall, nex.$r.bubble);
                $(
                    if bu { let mut d = pre.$r.$f; d = $d; prove(eqb(&cur.$r.$f, &d), "a bubbled register becomes an empty no-op"); }
                    else if st { prove(eqb(&cur.$r.$f, &pre.$r.$f), "a stalled register keeps its contents"); }
                    else { prove(eqb(&cur.$r.$f, &nex.$r.$f), "a register loads its inputs"); }
                )*
                cover(bu, "bubble");
                cover(st && !bu, "stall");
                cover(!st && !bu, "load");
            )*
            prove(sim.cycle_count() == n0, "the tick itself is not a cycle");
            let k = (any_u64() & 0xffff) as usize;
            prove(mem.read()[k] == m0[k], "the tick leaves memory alone");
            let r = sim.registers();
            let mut k = 0;
            while k < 15 { prove(r[k] == r0[k], "the tick leaves the register file alone"); k += 1; }
            stop();
        }
        fn $init() {
            use crate::architectures::builtin::$m::{Arch, PipeRegs};
            let mut p = PipeRegs::default();
            let sim = PipeSim::<Arch>::new(MemData::init([0u8; MEMZ]), false);
            let s = &sim.cur_state;
            $( $( p.$r.$f = $d;
                prove(eqb(&s.$r.$f, &p.$r.$f), "at power-on every register is empty"); )* )*
            prove(sim.cycle_count() == 0 && !sim.is_terminate(), "at power-on no cycle has run");
            stop();
        }
    };
}
arch!(tick_seq, on_seq, seq_std, s { pc = 0 });
arch!(tick_seqp, on_seqp, seq_plus_std, s { icode = 1, valC = 0, valM = 0, valP = 0, cnd = false });
arch!(tick_pipe, on_pipe, pipe_std,
    f { pred_pc = 0 }
    d { stat = Stat::Bub, icode = 1, ifun = 0, rA = 15, rB = 15, valC = 0, valP = 0 }
    e { stat = Stat::Bub, icode = 1, ifun = 0, valC = 0, valA = 0, valB = 0, dstE = 15, dstM = 15, srcA = 15, srcB = 15 }
    m { stat = Stat::Bub, icode = 1, cnd = false, valE = 0, valA = 0, dstE = 15, dstM = 15 }
    w { stat = Stat::Bub, icode = 1, valE = 0, valM = 0, dstE = 15, dstM = 15 });

// the stage register types of user architectures are generated by the same macro: one with every shape
mod sample {
    use crate::isa::Stat::{self, *};
    crate::define_stages! {
        First a { x: u64 = 7, y: bool = true }
        /// second
        Second b { z: u8 = RNONE, w: Stat = Bub, v: [u8; 9] = [3; 9] }
        Third c { q: u8 = SUB }
    }
}
fn tick_user() {
    let mut old = Box::new(sample::PipeRegs::default());
    prove(old.a.x == 7 && old.a.y && old.b.z == 15 && matches!(old.b.w, Stat::Bub) && old.b.v == [3; 9] && old.c.q == 1, "declared default values");
    let mut new = old.clone();
    for p in [&mut old, &mut new] {
        p.a.x = any_u64();
        p.a.y = any_bool();
        p.b.z = any_u8();
        p.b.w = any_stat();
        any_mem(&mut p.b.v);
        p.c.q = any_u8();
        p.a.bubble = any_bool();
        p.a.stall = any_bool();
        p.b.bubble = any_bool();
        p.b.stall = any_bool();
        p.c.bubble = any_bool();
        p.c.stall = any_bool();
    }
    assume(!(new.a.bubble & new.a.stall) & !(new.b.bubble & new.b.stall) & !(new.c.bubble & new.c.stall));
    let pre = old.clone();
    old.mux(&new);
    macro_rules! chk { ($r:ident $($f:ident)*) => { $(
        let d = sample::PipeRegs::default();
        let want = if new.$r.bubble { &d } else if new.$r.stall { &*pre } else { &*new };
        prove(eqb(&old.$r.$f, &want.$r.$f), "user-defined registers obey stall and bubble");
    )* } }
    chk!(a x y);
    chk!(b z w v);
    chk!(c q);
    stop();
}
pub static HARNESSES: &[(&str, fn())] = &[("tick_seq", tick_seq), ("tick_seqp", tick_seqp), ("tick_pipe", tick_pipe), ("on_seq", on_seq), ("on_seqp", on_seqp), ("on_pipe", on_pipe), ("tick_user", tick_user)];
