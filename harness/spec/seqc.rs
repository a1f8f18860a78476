// C03 / C04: one cycle of the sequential processors executes exactly one instruction of the
// instruction-set specification, from every architectural state.
use crate::framework::{CpuSim, MemData, PipeSim};
use crate::isa::{ConditionCode, RegFile};
use crate::object::BIN_SIZE;

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}

type UI = crate::architectures::hardware_seq::UnitInputSignal;
type UO = crate::architectures::hardware_seq::UnitOutputSignal;
type Un = crate::architectures::hardware_seq::Units;

/// puts the hardware units into an arbitrary state
#[inline(never)]
fn havoc_units(u: &mut Un, out: &mut UO) {
    let mut k = 0u8;
    while k < 15 {
        let mut i = UI::default();
        i.reg_write.dstE = k;
        i.reg_write.valE = any_u64();
        i.reg_write.dstM = 15;
        u.run("reg_write", (&i, out));
        k += 1;
    }
    let mut i = UI::default();
    i.reg_cc.set_cc = true;
    i.reg_cc.a = any_u64();
    i.reg_cc.b = any_u64();
    i.reg_cc.e = any_u64();
    i.reg_cc.opfun = any_nibble();
    u.run("reg_cc", (&i, out));
}
/// the condition codes as the next instruction sees them
#[inline(never)]
fn read_cc(u: &mut Un) -> ConditionCode {
    let i = UI::default();
    let mut o = UO::default();
    u.run("reg_cc", (&i, &mut o));
    o.reg_cc.cc
}
