// C01 / C02: contract of the instruction-set simulator.
// The loop of `isa::simulate` is cut at its head by the hook `isa_loop_head`:
//   1st arrival: the loop invariant must hold of the initial state; then the state is havocked;
//   2nd arrival (or return): the state must be the specified successor.
use crate::isa::{simulate, ConditionCode, RegFile};
use crate::object::BIN_SIZE;

static mut ARM: u8 = 0;
static mut PRE: Option<Spec> = None;
static mut PRE_N: u64 = 0;
static mut IN: Option<Box<[u8; MEMZ]>> = None;
static mut DEC: Option<Dec> = None;

pub fn asm_line_head(_: &mut u64) {}

pub fn isa_loop_head(bin: &mut [u8; BIN_SIZE], pc: &mut usize, cc: &mut ConditionCode, regs: &mut RegFile, n: &mut u64) {
    #[allow(static_mut_refs)]
    unsafe {
        if ARM == 0 { return; }
        if ARM == 1 {
            ARM = 2;
            let k = (any_u64() & 0xffff) as usize;
            prove(bin[k] == IN.as_ref().unwrap()[k], "initially memory holds the given image");
            prove(*pc == 0, "initially pc is 0");
            prove(!cc.sf && !cc.zf && !cc.of, "initially the condition codes are clear");
            let mut i = 0;
            while i < 15 { prove(regs[i] == 0, "initially the registers are 0"); i += 1; }
            prove(*n == 0, "initially no instruction was executed");
            // arbitrary state
            let mut m = Box::new([0u8; MEMZ]);
            any_mem(&mut m[..]);
            *bin = *m;
            let mut r = [0u64; 16];
            i = 0;
            while i < 16 { r[i] = any_u64(); i += 1; }
            *regs = r;
            *pc = any_u64() as usize;
            *cc = ConditionCode { sf: any_bool(), zf: any_bool(), of: any_bool() };
            *n = any_u64();
            assume(*n < u64::MAX);
            PRE_N = *n;
            let d = if (*pc as u64) < MEM { fetch(&m, *pc as u64) } else { None };
            PRE = Some(Spec { regs: r, sf: cc.sf, zf: cc.zf, of: cc.of, pc: *pc as u64, mem: m });
            DEC = d;
            return;
        }
        // one instruction has been executed and the loop continues
        check(Some((&*bin, *pc as u64, *cc, *regs, *n)), false);
        stop();
    }
}

/// post: Some = the simulator went on (or halted, if `halted`), None = it returned an error
unsafe fn check(post: Option<(&[u8; BIN_SIZE], u64, ConditionCode, RegFile, u64)>, halted: bool) {
    #[allow(static_mut_refs)]
    let pre = PRE.as_ref().unwrap();
    if !CHECK { return; }
    let Some(d) = DEC.as_ref() else {
        // the instruction does not fit in memory
        prove(post.is_none(), "fetch outside memory is an error");
        return;
    };
    let known = d.icode <= 12;
    if known && matches!(d.icode, 2 | 7) && d.ifun > 6 { return; } // undefined condition: unspecified
    if known && matches!(d.icode, 10 | 11) && d.rb != 15 { return; } // unspecified
    if known && !fields_ok(d) {
        prove(post.is_none(), "an undefined encoding is an error");
        return;
    }
    if !operands_ok(d) { return; } // unspecified
    let mut s = pre.clone();
    let r = exec(&mut s, d, true);
    cover(r == st::OK, "normal step");
    match post {
        None => {
            prove(r == st::ADR || r == st::INS, "an error is reported only for a faulting instruction");
            cover(r == st::ADR, "address fault");
        }
        Some((bin, pc, cc, regs, n)) => {
            if halted { prove(r == st::HLT, "the simulation ends normally only on halt"); }
            else { prove(r == st::OK, "the simulation goes on only after a normal instruction"); }
            prove(n == PRE_N + 1, "every executed instruction is counted");
            prove(pc == s.pc, "next pc");
            let mut i = 0;
            let mut same = true;
            while i < 15 { same &= regs[i] == s.regs[i]; i += 1; }
            prove(same, "registers");
            prove(cc.sf == s.sf && cc.zf == s.zf && cc.of == s.of, "condition codes");
            let k = (any_u64() & 0xffff) as usize;
            prove(bin[k] == s.mem[k], "memory");
        }
    }
}
static mut CHECK: bool = true;

/// C01: every step is the one the instruction set specifies
fn isa_step() { unsafe { CHECK = true; } start() }
/// C02: no state makes it crash
fn isa_nocrash() { unsafe { CHECK = false; } start() }
fn start() {
    unsafe {
        let mut m = Box::new([0u8; MEMZ]);
        any_mem(&mut m[..]);
        IN = Some(m.clone());
        ARM = 1;
        match simulate(*m, false) {
            Ok(r) => check(Some((&r.bin, r.pc as u64, r.cc, r.regs, r.n_insts)), true),
            Err(_) => check(None, false),
        }
        stop();
    }
}
pub static HARNESSES: &[(&str, fn())] = &[("isa_step", isa_step), ("isa_nocrash", isa_nocrash)];
