// C07: arithmetic, condition codes and conditions (functions of isa.rs and the units built on them).
use crate::framework::{HardwareUnits, MemData};
use crate::isa::{arithmetic_compute, ConditionCode, RegFile};
use crate::object::BIN_SIZE;

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}

fn any_cc() -> ConditionCode { ConditionCode { sf: any_bool(), of: any_bool(), zf: any_bool() } }
/// the result, over all operation codes
fn flags_alu() {
    let (a, b, f) = (any_u64(), any_u64(), any_u8());
    let r = arithmetic_compute(a, b, f);
    if f < 4 {
        prove(r == Some(spec_alu(f, a, b)), "b OP a modulo 2^64");
        // stated over the integers
        let m = match f { 0 => b as u128 + a as u128, 1 => (1u128 << 64) + b as u128 - a as u128, 2 => (b & a) as u128, _ => (b ^ a) as u128 };
        prove(r.unwrap_or(0) as u128 == m & (u64::MAX as u128), "b OP a agrees with the integers");
    } else {
        prove(r.is_none(), "an undefined operation has no result");
    }
    stop();
}
fn flags_cc() {
    let (a, b, f) = (any_u64(), any_u64(), any_u8());
    assume(f < 4);
    let e = spec_alu(f, a, b);
    let mut c = any_cc();
    c.set(a, b, e, f);
    prove(c.zf == (e == 0), "zero flag");
    prove(c.sf == ((e as i64) < 0), "sign flag");
    prove(c.of == spec_of(f, a, b), "overflow flag: the signed result does not fit");
    stop();
}
/// a comparison followed by a condition compares signed numbers
fn after_sub(t: impl Fn(u8) -> bool, a: u64, b: u64) {
    let (x, y) = (a as i64, b as i64);
    prove(t(0), "after subq: always");
    prove(t(1) == (y <= x), "after subq: le");
    prove(t(2) == (y < x), "after subq: l");
    prove(t(3) == (y == x), "after subq: e");
    prove(t(4) == (y != x), "after subq: ne");
    prove(t(5) == (y >= x), "after subq: ge");
    prove(t(6) == (y > x), "after subq: g");
}
fn flags_cmp() {
    let (a, b) = (any_u64(), any_u64());
    let mut c = any_cc();
    c.set(a, b, arithmetic_compute(a, b, 1).unwrap_or(0), 1);
    after_sub(|f| c.test(f), a, b);
    // andq of a register with itself tests its sign
    let mut d = any_cc();
    d.set(a, a, arithmetic_compute(a, a, 2).unwrap_or(1), 2);
    let x = a as i64;
    prove(d.test(1) == (x <= 0) && d.test(2) == (x < 0) && d.test(3) == (x == 0), "after andq x,x: le, l, e");
    prove(d.test(4) == (x != 0) && d.test(5) == (x >= 0) && d.test(6) == (x > 0), "after andq x,x: ne, ge, g");
    stop();
}
fn flags_test() {
    let c = any_cc();
    let f = any_u8();
    if f <= 6 { prove(c.test(f) == spec_cond(f, c.sf, c.zf, c.of), "condition from the flags"); }
    else { let _ = c.test(f); }
    prove(c.test(1) != c.test(6) && c.test(2) != c.test(5) && c.test(3) != c.test(4), "opposite conditions exclude each other");
    stop();
}
macro_rules! chain {
    ($n:ident, $m:ident) => {
        /// the same through the ALU, the CC register and the condition unit, one cycle apart
        fn $n() {
            use crate::architectures::$m::*;
            let mut u = Units::init(MemData::init([0u8; MEMZ]));
            let mut i = UnitInputSignal::default();
            let mut o = UnitOutputSignal::default();
            let (a, b) = (any_u64(), any_u64());
            i.alu.a = a;
            i.alu.b = b;
            i.alu.fun = 1;
            u.run("alu", (&i, &mut o));
            i.reg_cc.set_cc = true;
            i.reg_cc.a = a;
            i.reg_cc.b = b;
            i.reg_cc.e = o.alu.e;
            i.reg_cc.opfun = 1;
            u.run("reg_cc", (&i, &mut o));
            let f = split(any_u64() & 15, 16) as u8;
            assume(f <= 6);
            // a later cycle
            i.reg_cc.set_cc = false;
            i.reg_cc.a = any_u64();
            i.reg_cc.b = any_u64();
            i.reg_cc.e = any_u64();
            i.reg_cc.opfun = any_nibble();
            u.run("reg_cc", (&i, &mut o));
            i.cond.cc = o.reg_cc.cc;
            i.cond.condfun = f;
            u.run("cond", (&i, &mut o));
            let (x, y) = (a as i64, b as i64);
            let want = match f { 0 => true, 1 => y <= x, 2 => y < x, 3 => y == x, 4 => y != x, 5 => y >= x, _ => y > x };
            prove(o.cond.cnd == want, "a condition unit fed from the CC register compares signed numbers");
            stop();
        }
    };
}
chain!(flags_seq, hardware_seq);
chain!(flags_pipe, hardware_pipe);
pub static HARNESSES: &[(&str, fn())] = &[("flags_alu", flags_alu), ("flags_cc", flags_cc), ("flags_cmp", flags_cmp), ("flags_test", flags_test), ("flags_seq", flags_seq), ("flags_pipe", flags_pipe)];
