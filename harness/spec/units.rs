// C06: contracts of the hardware units (both unit libraries), each run from arbitrary inputs, arbitrary unit
// state and arbitrary values left over on the output wires; with a frame condition on everything else.
use crate::framework::{HardwareUnits, MemData};
use crate::isa::{ConditionCode, RegFile};
use crate::object::BIN_SIZE;

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}

/// an arbitrary byte of `b` outside the sub-object `f` of `b` is what it was in `a`
#[inline(always)]
fn frame<T, F>(a: &T, b: &T, f: &F) -> bool {
    let n = core::mem::size_of::<T>() as u64;
    let (pa, pb) = (a as *const T as *const u8, b as *const T as *const u8);
    let lo = f as *const F as usize as u64 - pb as usize as u64;
    let hi = lo + core::mem::size_of::<F>() as u64;
    let k = any_u64();
    assume(k < n && !(lo <= k && k < hi));
    unsafe { *pa.add(k as usize) == *pb.add(k as usize) }
}
pub struct Regs(pub [u64; 16]);
macro_rules! hw {
    ($m:ident, $m2:ident, $setreg:expr) => {
        #[allow(non_snake_case)]
        mod $m2 {
            use super::*;
            use crate::architectures::$m::*;
            pub type UI = UnitInputSignal;
            pub type UO = UnitOutputSignal;
            pub struct Hw { pub u: Units, pub mem: MemData, pub m0: Box<[u8; MEMZ]>, pub r0: Regs, pub cc0: ConditionCode, pub out: Box<UO> }
            pub fn read_cc(u: &mut Units) -> ConditionCode {
                let i = UI::default();
                let mut o = UO::default();
                u.run("reg_cc", (&i, &mut o));
                o.reg_cc.cc
            }
            /// units in an arbitrary state
            #[inline(never)]
            pub fn arbitrary() -> Hw {
                let mem = MemData::init([0u8; MEMZ]);
                let mut u = Units::init(mem.clone());
                any_mem(&mut mem.write()[..]);
                let mut o = UO::default();
                let mut k = 0u8;
                while k < 15 { $setreg(&mut u, k, any_u64(), &mut o); k += 1; }
                let mut i = UI::default();
                i.reg_cc.set_cc = true;
                i.reg_cc.a = any_u64();
                i.reg_cc.b = any_u64();
                i.reg_cc.e = any_u64();
                i.reg_cc.opfun = any_nibble();
                u.run("reg_cc", (&i, &mut o));
                let cc0 = read_cc(&mut u);
                let r0 = Regs(u.register_file());
                let m0 = Box::new(*mem.read());
                let mut out = Box::new(UO::default());
                raw_any(&mut *out);
                Hw { u, mem, m0, r0, cc0, out }
            }
            pub fn run(h: &mut Hw, name: &'static str, i: &UI) -> Box<UO> {
                // a byte-wise copy
                let mut before = Box::new(UO::default());
                unsafe { core::ptr::copy_nonoverlapping(&*h.out as *const UO, &mut *before, 1) };
                h.u.run(name, (i, &mut h.out));
                before
            }
            pub fn regs_kept(h: &Hw) { let r = h.u.register_file(); let mut k = 0; while k < 16 { prove(r[k] == h.r0.0[k], "registers are untouched"); k += 1; } }
            pub fn mem_kept(h: &Hw) { let k = (any_u64() & 0xffff) as usize; prove(h.mem.read()[k] == h.m0[k], "memory is untouched"); }
            pub fn cc_kept(h: &mut Hw) { let c = read_cc(&mut h.u); prove(c.sf == h.cc0.sf && c.zf == h.cc0.zf && c.of == h.cc0.of, "the condition codes are untouched"); }

            pub fn init() {
                let mut m = Box::new([0u8; MEMZ]);
                any_mem(&mut m[..]);
                let mem = MemData::init(*m);
                let mut u = Units::init(mem.clone());
                let k = (any_u64() & 0xffff) as usize;
                prove(mem.read()[k] == m[k], "initially memory holds the image");
                let r = u.register_file();
                let mut k = 0;
                while k < 16 { prove(r[k] == 0, "initially the registers are 0"); k += 1; }
                let c = read_cc(&mut u);
                prove(!c.sf && !c.zf && !c.of, "initially the condition codes are clear");
                stop();
            }
            pub fn imem() {
                let mut h = arbitrary();
                let mut i = UI::default();
                i.imem.pc = any_u64();
                let pc = i.imem.pc;
                let b = run(&mut h, "imem", &i);
                let o = &h.out.imem;
                prove(o.error == (pc > MEM - 10), "instruction memory: error exactly when the ten bytes do not fit");
                cover(o.error, "fetch error");
                if pc <= MEM - 10 {
                    let p = pc as usize;
                    prove(o.icode == h.m0[p] >> 4 && o.ifun == h.m0[p] & 15, "instruction memory: first byte is split high half first");
                    let mut k = 0;
                    while k < 9 { prove(o.align[k] == h.m0[p + 1 + k], "instruction memory: the other nine bytes"); k += 1; }
                }
                prove(frame(&*b, &*h.out, &h.out.imem), "instruction memory: other units' outputs are untouched");
                regs_kept(&h); mem_kept(&h); cc_kept(&mut h);
                stop();
            }
            pub fn ialign() {
                let mut h = arbitrary();
                let mut i = UI::default();
                i.ialign.need_regids = any_bool();
                any_mem(&mut i.ialign.align[..]);
                let a = i.ialign.align;
                let b = run(&mut h, "ialign", &i);
                let o = &h.out.ialign;
                if i.ialign.need_regids {
                    prove(o.rA == a[0] >> 4 && o.rB == a[0] & 15, "align: register specifiers");
                    prove(o.valC == u64::from_le_bytes([a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]]), "align: constant after the register byte, little endian");
                } else {
                    prove(o.rA == 15 && o.rB == 15, "align: no register");
                    prove(o.valC == u64::from_le_bytes([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]]), "align: constant without register byte, little endian");
                }
                prove(frame(&*b, &*h.out, &h.out.ialign), "align: other units' outputs are untouched");
                regs_kept(&h); mem_kept(&h); cc_kept(&mut h);
                stop();
            }
            pub fn pc_inc() {
                let mut h = arbitrary();
                let mut i = UI::default();
                i.pc_inc.need_valC = any_bool();
                i.pc_inc.need_regids = any_bool();
                i.pc_inc.old_pc = any_u64();
                let b = run(&mut h, "pc_inc", &i);
                let n = 1 + i.pc_inc.need_regids as u64 + 8 * i.pc_inc.need_valC as u64;
                prove(h.out.pc_inc.new_pc == i.pc_inc.old_pc.wrapping_add(n), "pc increment: length of the instruction is added");
                prove(frame(&*b, &*h.out, &h.out.pc_inc), "pc increment: other units' outputs are untouched");
                regs_kept(&h); mem_kept(&h); cc_kept(&mut h);
                stop();
            }
            pub fn alu() {
                let mut h = arbitrary();
                let mut i = UI::default();
                i.alu.a = any_u64();
                i.alu.b = any_u64();
                i.alu.fun = any_u8();
                let b = run(&mut h, "alu", &i);
                if i.alu.fun < 4 { prove(h.out.alu.e == spec_alu(i.alu.fun, i.alu.a, i.alu.b), "ALU: result"); }
                prove(frame(&*b, &*h.out, &h.out.alu), "ALU: other units' outputs are untouched");
                regs_kept(&h); mem_kept(&h); cc_kept(&mut h);
                stop();
            }
            pub fn reg_cc() {
                let mut h = arbitrary();
                let mut i = UI::default();
                let (a, b, f) = (any_u64(), any_u64(), any_nibble());
                i.reg_cc.set_cc = any_bool();
                assume(f < 4);
                let e = spec_alu(f, a, b);
                i.reg_cc.a = a;
                i.reg_cc.b = b;
                i.reg_cc.e = e;
                i.reg_cc.opfun = f;
                let before = run(&mut h, "reg_cc", &i);
                let o = h.out.reg_cc.cc;
                if i.reg_cc.set_cc {
                    prove(o.zf == (e == 0) && o.sf == ((e as i64) < 0) && o.of == spec_of(f, a, b), "CC register: flags of the result");
                    let c = read_cc(&mut h.u);
                    prove(c.sf == o.sf && c.zf == o.zf && c.of == o.of, "CC register: the new flags are stored");
                } else {
                    prove(o.sf == h.cc0.sf && o.zf == h.cc0.zf && o.of == h.cc0.of, "CC register: outputs the stored flags");
                    cc_kept(&mut h);
                }
                prove(frame(&*before, &*h.out, &h.out.reg_cc), "CC register: other units' outputs are untouched");
                regs_kept(&h); mem_kept(&h);
                stop();
            }
            pub fn cond() {
                let mut h = arbitrary();
                let mut i = UI::default();
                let f = any_nibble();
                assume(f <= 6);
                i.cond.condfun = f;
                i.cond.cc = ConditionCode { sf: any_bool(), of: any_bool(), zf: any_bool() };
                let c = i.cond.cc;
                let b = run(&mut h, "cond", &i);
                prove(h.out.cond.cnd == spec_cond(f, c.sf, c.zf, c.of), "condition: holds as the instruction set defines");
                prove(frame(&*b, &*h.out, &h.out.cond), "condition: other units' outputs are untouched");
                regs_kept(&h); mem_kept(&h); cc_kept(&mut h);
                stop();
            }
            pub fn dmem() {
                let mut h = arbitrary();
                let mut i = UI::default();
                let (addr, d) = (any_u64(), any_u64());
                i.dmem.addr = addr;
                i.dmem.datain = d;
                i.dmem.read = any_bool();
                i.dmem.write = any_bool();
                // never both in one cycle
                assume(!(i.dmem.read && i.dmem.write));
                let b = run(&mut h, "dmem", &i);
                let bad = addr > MEM - 8;
                prove(h.out.dmem.error == bad, "data memory: error exactly when the eight bytes do not fit");
                cover(bad, "data error");
                if i.dmem.read && !bad { prove(h.out.dmem.dataout == ld8(&h.m0, addr), "data memory: reads eight bytes, little endian"); }
                else { prove(h.out.dmem.dataout == 0, "data memory: output is 0 when nothing is read"); }
                if i.dmem.write && !bad {
                    let mut m = h.m0.clone();
                    st8(&mut m, addr, d);
                    let k = (any_u64() & 0xffff) as usize;
                    prove(h.mem.read()[k] == m[k], "data memory: writes these eight bytes, little endian, and no other");
                    cover(true, "write");
                } else { mem_kept(&h); }
                prove(frame(&*b, &*h.out, &h.out.dmem), "data memory: other units' outputs are untouched");
                regs_kept(&h); cc_kept(&mut h);
                stop();
            }
        }
    };
}

hw!(hardware_seq, hs, |u: &mut Units, k: u8, v: u64, o: &mut UO| {
    let mut i = UI::default();
    i.reg_write.dstE = k;
    i.reg_write.valE = v;
    i.reg_write.dstM = 15;
    u.run("reg_write", (&i, o));
});
hw!(hardware_pipe, hp, |u: &mut Units, k: u8, v: u64, o: &mut UO| {
    let mut i = UI::default();
    i.reg_file.dstE = k;
    i.reg_file.valE = v;
    i.reg_file.dstM = 15;
    i.reg_file.srcA = 15;
    i.reg_file.srcB = 15;
    u.run("reg_file", (&i, o));
});
/// register contents after a write of both ports; when both name the same register the memory port wins (popq %rsp)
#[inline(always)]
fn written(r0: &[u64; 16], de: u8, ve: u64, dm: u8, vm: u64) -> [u64; 16] {
    let mut r = *r0;
    rset(&mut r, de, ve);
    rset(&mut r, dm, vm);
    r
}
fn s_reg_read() {
    let mut h = hs::arbitrary();
    let mut i = hs::UI::default();
    i.reg_read.srcA = any_nibble();
    i.reg_read.srcB = any_nibble();
    let b = hs::run(&mut h, "reg_read", &i);
    prove(h.out.reg_read.valA == rget(&h.r0.0, i.reg_read.srcA), "register file: reads port A");
    prove(h.out.reg_read.valB == rget(&h.r0.0, i.reg_read.srcB), "register file: reads port B");
    prove(frame(&*b, &*h.out, &h.out.reg_read), "register file: other units' outputs are untouched");
    hs::regs_kept(&h);
    hs::mem_kept(&h);
    hs::cc_kept(&mut h);
    stop();
}
fn s_reg_write() {
    let mut h = hs::arbitrary();
    let mut i = hs::UI::default();
    i.reg_write.dstE = any_nibble();
    i.reg_write.dstM = any_nibble();
    i.reg_write.valE = any_u64();
    i.reg_write.valM = any_u64();
    let w = &i.reg_write;
    let want = written(&h.r0.0, w.dstE, w.valE, w.dstM, w.valM);
    let b = hs::run(&mut h, "reg_write", &i);
    let r = h.u.register_file();
    let mut k = 0;
    while k < 15 { prove(r[k] == want[k], "register file: writes exactly the destination registers"); k += 1; }
    cover(w.dstE == w.dstM && w.dstE != 15, "both ports write the same register");
    prove(frame(&*b, &*h.out, &h.out.reg_write), "register file: other units' outputs are untouched");
    hs::mem_kept(&h);
    hs::cc_kept(&mut h);
    stop();
}
fn p_reg_file() {
    let mut h = hp::arbitrary();
    let mut i = hp::UI::default();
    i.reg_file.srcA = any_nibble();
    i.reg_file.srcB = any_nibble();
    i.reg_file.dstE = any_nibble();
    i.reg_file.dstM = any_nibble();
    i.reg_file.valE = any_u64();
    i.reg_file.valM = any_u64();
    let w = i.reg_file.clone();
    let want = written(&h.r0.0, w.dstE, w.valE, w.dstM, w.valM);
    let b = hp::run(&mut h, "reg_file", &i);
    let r = h.u.register_file();
    let mut k = 0;
    while k < 15 { prove(r[k] == want[k], "register file: writes exactly the destination registers"); k += 1; }
    prove(h.out.reg_file.valA == rget(&want, w.srcA), "register file: port A reads what was just written");
    prove(h.out.reg_file.valB == rget(&want, w.srcB), "register file: port B reads what was just written");
    cover(w.dstE == w.dstM && w.dstE != 15, "both ports write the same register");
    prove(frame(&*b, &*h.out, &h.out.reg_file), "register file: other units' outputs are untouched");
    hp::mem_kept(&h);
    hp::cc_kept(&mut h);
    stop();
}
fn s_init() { hs::init() }
fn s_imem() { hs::imem() }
fn s_ialign() { hs::ialign() }
fn s_pc_inc() { hs::pc_inc() }
fn s_alu() { hs::alu() }
fn s_reg_cc() { hs::reg_cc() }
fn s_cond() { hs::cond() }
fn s_dmem() { hs::dmem() }
fn p_init() { hp::init() }
fn p_imem() { hp::imem() }
fn p_ialign() { hp::ialign() }
fn p_pc_inc() { hp::pc_inc() }
fn p_alu() { hp::alu() }
fn p_reg_cc() { hp::reg_cc() }
fn p_cond() { hp::cond() }
fn p_dmem() { hp::dmem() }
pub static HARNESSES: &[(&str, fn())] = &[
    ("s_init", s_init),
    ("s_imem", s_imem),
    ("s_ialign", s_ialign),
    ("s_pc_inc", s_pc_inc),
    ("s_alu", s_alu),
    ("s_reg_cc", s_reg_cc),
    ("s_cond", s_cond),
    ("s_dmem", s_dmem),
    ("p_init", p_init),
    ("p_imem", p_imem),
    ("p_ialign", p_ialign),
    ("p_pc_inc", p_pc_inc),
    ("p_alu", p_alu),
    ("p_reg_cc", p_reg_cc),
    ("p_cond", p_cond),
    ("p_dmem", p_dmem),
    ("s_reg_read", s_reg_read), ("s_reg_write", s_reg_write), ("p_reg_file", p_reg_file),
];
