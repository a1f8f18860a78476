// C05: the five-stage pipeline refines the instruction-set specification.
//
// Abstraction function (completion): the architectural state a pipeline state stands for is
// obtained by letting the instructions in W, M, E and D finish, oldest first. One cycle either
// leaves that architectural state alone (a stall or squashed cycle, bounded by a rank) or advances
// it by exactly the instruction fetched in that cycle.
use crate::framework::{CpuSim, MemData, PipeSim};
use crate::isa::{ConditionCode, RegFile, Stat};
use crate::object::BIN_SIZE;
use crate::architectures::builtin::pipe_std::{Arch, PipeRegs};

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}

type UI = crate::architectures::hardware_pipe::UnitInputSignal;
type UO = crate::architectures::hardware_pipe::UnitOutputSignal;
type Un = crate::architectures::hardware_pipe::Units;

#[inline(never)]
fn havoc_units(u: &mut Un, out: &mut UO) {
    let mut k = 0u8;
    while k < 15 {
        let mut i = UI::default();
        i.reg_file.dstE = k;
        i.reg_file.valE = any_u64();
        i.reg_file.dstM = 15;
        i.reg_file.srcA = 15;
        i.reg_file.srcB = 15;
        u.run("reg_file", (&i, out));
        k += 1;
    }
    let mut i = UI::default();
    i.reg_cc.set_cc = true;
    i.reg_cc.a = any_u64();
    i.reg_cc.b = any_u64();
    i.reg_cc.e = any_u64();
    i.reg_cc.opfun = any_nibble();
    u.run("reg_cc", (&i, out));
}
#[inline(never)]
fn read_cc(u: &mut Un) -> ConditionCode {
    let i = UI::default();
    let mut o = UO::default();
    u.run("reg_cc", (&i, &mut o));
    o.reg_cc.cc
}
fn any_stat() -> Stat {
    match any_u8() & 7 { 0 => Stat::Aok, 1 => Stat::Bub, 2 => Stat::Hlt, 3 => Stat::Adr, _ => Stat::Ins }
}
#[inline(never)]
fn havoc_stages(s: &mut PipeRegs) {
    s.f.pred_pc = any_u64();
    s.d.stat = any_stat();
    s.d.icode = any_nibble();
    s.d.ifun = any_nibble();
    s.d.rA = any_nibble();
    s.d.rB = any_nibble();
    s.d.valC = any_u64();
    s.d.valP = any_u64();
    s.e.stat = any_stat();
    s.e.icode = any_nibble();
    s.e.ifun = any_nibble();
    s.e.valC = any_u64();
    s.e.valA = any_u64();
    s.e.valB = any_u64();
    s.e.dstE = any_nibble();
    s.e.dstM = any_nibble();
    s.e.srcA = any_nibble();
    s.e.srcB = any_nibble();
    s.m.stat = any_stat();
    s.m.icode = any_nibble();
    s.m.cnd = any_bool();
    s.m.valE = any_u64();
    s.m.valA = any_u64();
    s.m.dstE = any_nibble();
    s.m.dstM = any_nibble();
    s.w.stat = any_stat();
    s.w.icode = any_nibble();
    s.w.valE = any_u64();
    s.w.valM = any_u64();
    s.w.dstE = any_nibble();
    s.w.dstM = any_nibble();
}

// ---- instruction classes (branch-free: sets of instruction codes are bit masks) -----------------
#[inline(always)]
fn isin(i: u8, set: u32) -> bool { (set >> (i & 15)) & 1 != 0 }
const STACK: u32 = 1 << 8 | 1 << 9 | 1 << 10 | 1 << 11;
const MEMOP: u32 = STACK | 1 << 4 | 1 << 5;
const STORE: u32 = 1 << 4 | 1 << 8 | 1 << 10;
const LOAD: u32 = 1 << 5 | 1 << 9 | 1 << 11;
#[inline(always)]
fn exceptional(s: Stat) -> bool { isin(s as u8, 1 << Stat::Hlt as u8 | 1 << Stat::Adr as u8 | 1 << Stat::Ins as u8) }
#[inline(always)]
fn is(s: Stat, t: Stat) -> bool { s as u8 == t as u8 }
/// status and instruction code agree
#[inline(always)]
fn stat_icode(s: Stat, i: u8) -> bool {
    (i < 16)
        & ((is(s, Stat::Bub) | is(s, Stat::Adr)) & (i == 1)
            | is(s, Stat::Hlt) & (i == 0)
            | is(s, Stat::Ins) & (i > 11)
            | is(s, Stat::Aok) & (i >= 1) & (i <= 11))
}
/// destination registers an instruction can have
#[inline(always)]
fn dst_ok(i: u8, de: u8, dm: u8) -> bool {
    (de <= 15) & (dm <= 15)
        & (isin(i, 1 << 2 | 1 << 3 | 1 << 6) | isin(i, STACK) & (de == 4) | !isin(i, STACK) & (de == 15))
        & (isin(i, 1 << 5 | 1 << 11) | (dm == 15))
}
#[inline(always)]
fn src_ok(i: u8, a: u8, b: u8) -> bool {
    (a <= 15) & (b <= 15)
        & (isin(i, 1 << 2 | 1 << 4 | 1 << 6 | 1 << 10) | isin(i, 1 << 9 | 1 << 11) & (a == 4) | !isin(i, 1 << 9 | 1 << 11) & (a == 15))
        & (isin(i, 1 << 4 | 1 << 5 | 1 << 6) | isin(i, STACK) & (b == 4) | !isin(i, STACK) & (b == 15))
}

/// structural invariant of reachable pipeline states: a bit per violated clause
#[inline(never)]
fn inv(s: &PipeRegs, mem_addr: u64) -> u64 {
    let PipeRegs { f, d, e, m, w } = s;
    let k = |c: bool, n: u64| ((!c) as u64) << n;
    let db = is(d.stat, Stat::Bub);
    let eb = is(e.stat, Stat::Bub);
    let mb = is(m.stat, Stat::Bub);
    k(stat_icode(d.stat, d.icode), 0)
        | k(stat_icode(e.stat, e.icode), 1)
        | k(stat_icode(m.stat, m.icode), 2)
        // an address fault of the memory stage keeps the instruction
        | k(stat_icode(w.stat, w.icode) | is(w.stat, Stat::Adr) & isin(w.icode, MEMOP), 3)
        | k((d.rA <= 15) & (d.rB <= 15) & (d.ifun <= 15), 4)
        | k(isin(d.icode, 1 << 2 | 1 << 3 | 1 << 4 | 1 << 5 | 1 << 6 | 1 << 10 | 1 << 11) | (d.rA == 15) & (d.rB == 15), 5)
        | k(dst_ok(e.icode, e.dstE, e.dstM), 6)
        | k(src_ok(e.icode, e.srcA, e.srcB), 7)
        | k(e.ifun <= 15, 8)
        | k(dst_ok(m.icode, m.dstE, m.dstM), 9)
        | k(dst_ok(w.icode, w.dstE, w.dstM), 10)
        | k((e.icode != 9) | db, 11)
        | k((m.icode != 9) | db & eb, 12)
        | k((w.icode != 9) | db & eb & mb, 13)
        | k((m.icode != 7) | m.cnd | db & eb, 14)
        | k(db | (d.icode == 9) | exceptional(d.stat) | isin(d.icode, 1 << 7 | 1 << 8) & (f.pred_pc == d.valC) | !isin(d.icode, 1 << 7 | 1 << 8) & (f.pred_pc == d.valP), 15)
        | k(!exceptional(w.stat) | mb, 16)
        | k((mem_addr <= MEM - 8) | exceptional(w.stat), 17)
}

// ---- completion ----------------------------------------------------------------------------
pub struct A {
    pub s: Spec,
    pub stat: u8,
    /// stage that holds the first instruction that stops the processor: 1 W .. 4 D
    pub pos: u8,
    /// the instruction in D is on a mispredicted path
    pub skip_d: bool,
    /// instructions still in flight are defined ones (no undefined function code or operand)
    pub ok: bool,
}
fn st_of(x: Stat) -> u8 {
    match x { Stat::Aok | Stat::Bub => st::OK, Stat::Hlt => st::HLT, Stat::Adr => st::ADR, Stat::Ins => st::INS }
}
impl A {
    /// the instruction at stage `pos` stops the processor; what it does to its own destination
    /// registers is left open
    fn halt(&mut self, stat: u8, pos: u8, de: u8, dm: u8) {
        self.stat = stat;
        self.pos = pos;
        if stat == st::ADR {
            rset(&mut self.s.regs, de, 0);
            rset(&mut self.s.regs, dm, 0);
        }
    }
}
#[inline(never)]
fn complete_w(a: &mut A, p: &PipeRegs) {
    let w = &p.w;
    if a.stat != st::OK { return; }
    if exceptional(w.stat) { a.halt(st_of(w.stat), 1, w.dstE, w.dstM); return; }
    rset(&mut a.s.regs, w.dstE, w.valE);
    rset(&mut a.s.regs, w.dstM, w.valM);
    if w.icode == 9 { a.s.pc = w.valM; }
}
#[inline(never)]
fn complete_m(a: &mut A, p: &PipeRegs) {
    let m = &p.m;
    if a.stat != st::OK { return; }
    if exceptional(m.stat) { a.halt(st_of(m.stat), 2, m.dstE, m.dstM); return; }
    let addr = if matches!(m.icode, 9 | 11) { m.valA } else { m.valE };
    if isin(m.icode, MEMOP) && addr > MEM - 8 { a.halt(st::ADR, 2, m.dstE, m.dstM); return; }
    rset(&mut a.s.regs, m.dstE, m.valE);
    if isin(m.icode, STORE) { st8(&mut a.s.mem, addr, m.valA); }
    if isin(m.icode, LOAD) {
        let v = ld8(&a.s.mem, addr);
        rset(&mut a.s.regs, m.dstM, v);
        if m.icode == 9 { a.s.pc = v; }
    }
    if m.icode == 7 && !m.cnd { a.s.pc = m.valA; }
}
#[inline(never)]
fn complete_e(a: &mut A, p: &PipeRegs) {
    let e = &p.e;
    if a.stat != st::OK { return; }
    if exceptional(e.stat) { a.halt(st_of(e.stat), 3, e.dstE, e.dstM); return; }
    let addr = match e.icode {
        8 | 10 => e.valB.wrapping_sub(8),
        9 | 11 => e.valA,
        _ => e.valB.wrapping_add(e.valC),
    };
    if isin(e.icode, MEMOP) && addr > MEM - 8 { a.halt(st::ADR, 3, e.dstE, e.dstM); return; }
    match e.icode {
        2 => {
            a.ok &= e.ifun <= 6 && e.srcA != 15 && e.dstE != 15;
            let t = spec_cond(e.ifun, a.s.sf, a.s.zf, a.s.of);
            let old = rget(&a.s.regs, e.dstE);
            rset(&mut a.s.regs, e.dstE, if t { e.valA } else { old });
        }
        3 => {
            a.ok &= e.dstE != 15;
            rset(&mut a.s.regs, e.dstE, e.valC);
        }
        4 => {
            a.ok &= e.srcA != 15 && e.srcB != 15;
            st8(&mut a.s.mem, addr, e.valA);
        }
        5 => {
            a.ok &= e.dstM != 15 && e.srcB != 15;
            let v = ld8(&a.s.mem, addr);
            rset(&mut a.s.regs, e.dstM, v);
        }
        6 => {
            a.ok &= e.ifun <= 3 && e.srcA != 15 && e.srcB != 15 && e.srcB == e.dstE;
            let r = spec_alu(e.ifun, e.valA, e.valB);
            a.s.of = spec_of(e.ifun, e.valA, e.valB);
            a.s.zf = r == 0;
            a.s.sf = (r as i64) < 0;
            rset(&mut a.s.regs, e.dstE, r);
        }
        7 => {
            a.ok &= e.ifun <= 6;
            if !spec_cond(e.ifun, a.s.sf, a.s.zf, a.s.of) {
                a.s.pc = e.valA;
                a.skip_d = true;
            }
        }
        8 | 10 => {
            a.ok &= e.icode == 8 || e.srcA != 15;
            st8(&mut a.s.mem, addr, e.valA);
            rset(&mut a.s.regs, e.dstE, addr);
        }
        9 => {
            a.s.pc = ld8(&a.s.mem, addr);
            rset(&mut a.s.regs, e.dstE, e.valB.wrapping_add(8));
        }
        11 => {
            a.ok &= e.dstM != 15;
            let v = ld8(&a.s.mem, addr);
            rset(&mut a.s.regs, e.dstE, e.valB.wrapping_add(8));
            rset(&mut a.s.regs, e.dstM, v);
        }
        _ => {}
    }
}
fn dec_of(p: &PipeRegs) -> Dec {
    let d = &p.d;
    Dec { icode: d.icode, ifun: d.ifun, ra: d.rA, rb: d.rB, valc: d.valC, valp: d.valP, len: 0 }
}
/// executes a decoded instruction on an abstract state
#[inline(never)]
fn run_dec(a: &mut A, d: &Dec, pos: u8) {
    if !(fields_ok(d) && operands_ok(d)) { a.ok = false; return; }
    let r = exec(&mut a.s, d, false);
    if r != st::OK {
        a.halt(r, pos, if isin(d.icode, STACK) { 4 } else { 15 }, if matches!(d.icode, 5 | 11) { d.ra } else { 15 });
    }
}
#[inline(never)]
fn complete_d(a: &mut A, p: &PipeRegs) {
    let d = &p.d;
    if a.stat != st::OK || a.skip_d || matches!(d.stat, Stat::Bub) { return; }
    if exceptional(d.stat) { a.halt(st_of(d.stat), 4, 15, 15); return; }
    run_dec(a, &dec_of(p), 4);
}

// ---- one cycle from an arbitrary invariant state ---------------------------------------------
struct Cyc {
    sim: PipeSim<Arch>,
    mem: MemData,
    pre: PipeRegs,
    a0: A,
}
#[inline(never)]
fn arbitrary() -> Cyc {
    let mem = MemData::init([0u8; MEMZ]);
    let mut sim = PipeSim::<Arch>::new(mem.clone(), false);
    any_mem(&mut mem.write()[..]);
    havoc_units(&mut sim.units, &mut sim.cur_unit_out);
    // values left over on the wires by earlier cycles
    raw_any(&mut sim.cur_unit_out);
    raw_any(&mut sim.cur_unit_in);
    raw_any(&mut sim.cur_inter);
    havoc_stages(&mut sim.cur_state);
    let n0 = any_u64();
    assume(n0 < u64::MAX);
    sim.cycle_count = n0;
    assume(inv(&sim.cur_state, sim.cur_inter.mem_addr) == 0);
    let cc = read_cc(&mut sim.units);
    let s = Spec { regs: sim.registers(), sf: cc.sf, zf: cc.zf, of: cc.of, pc: sim.cur_state.f.pred_pc, mem: Box::new(*mem.read()) };
    let pre = sim.cur_state.clone();
    Cyc { sim, mem, pre, a0: A { s, stat: st::OK, pos: 0, skip_d: false, ok: true } }
}
fn copy(a: &A) -> A { A { s: a.s.clone(), stat: a.stat, pos: a.pos, skip_d: a.skip_d, ok: a.ok } }
#[inline(never)]
fn same_regs(a: &[u64; 16], b: &[u64; 16]) -> bool {
    let mut same = true;
    let mut i = 0;
    while i < 15 { same &= a[i] == b[i]; i += 1; }
    same
}
fn same_cc(a: &A, b: &A) -> bool { a.s.sf == b.s.sf && a.s.zf == b.s.zf && a.s.of == b.s.of }

fn pipe_init() {
    let mut m = Box::new([0u8; MEMZ]);
    any_mem(&mut m[..]);
    let mem = MemData::init(*m);
    let mut sim = PipeSim::<Arch>::new(mem.clone(), false);
    let r = sim.registers();
    let mut i = 0;
    while i < 15 { prove(r[i] == 0, "initially the registers are 0"); i += 1; }
    let c = read_cc(&mut sim.units);
    prove(!c.sf && !c.zf && !c.of, "initially the condition codes are clear");
    let k = (any_u64() & 0xffff) as usize;
    prove(mem.read()[k] == m[k], "initially memory holds the program");
    prove(!sim.is_terminate() && sim.cycle_count() == 0, "initially nothing has run");
    prove(inv(&sim.cur_state, sim.cur_inter.mem_addr) == 0, "the initial state satisfies the invariant");
    let p = &sim.cur_state;
    prove(p.f.pred_pc == 0, "execution starts at address 0");
    let b = |s: Stat| matches!(s, Stat::Bub);
    prove(b(p.d.stat) && b(p.e.stat) && b(p.m.stat) && b(p.w.stat), "initially the pipeline is empty");
    stop();
}
/// the invariant is preserved, and the processor stops exactly when W holds a stopping instruction
fn pipe_inv() {
    let mut c = arbitrary();
    let n0 = c.sim.cycle_count();
    c.sim.step();
    prove(c.sim.cycle_count() == n0 + 1, "a step is one cycle");
    prove(c.sim.is_terminate() == exceptional(c.pre.w.stat), "the processor stops exactly when a stopping instruction reaches write back");
    if !c.sim.is_terminate() {
        let bad = inv(&c.sim.cur_state, c.sim.cur_inter.mem_addr);
        let mut i = 0;
        while i < 18 { prove(bad >> i & 1 == 0, "the pipeline invariant is preserved"); i += 1; }
    }
    stop();
}
/// write back, and the state the processor stops in
fn pipe_w() {
    let mut c = arbitrary();
    let mut a = copy(&c.a0);
    let w = c.pre.w.clone();
    complete_w(&mut a, &c.pre);
    c.sim.step();
    let mut g = c.sim.registers();
    if a.stat == st::ADR {
        rset(&mut g, w.dstE, 0);
        rset(&mut g, w.dstM, 0);
    }
    prove(same_regs(&g, &a.s.regs), "write back: registers");
    if a.stat != st::OK {
        let cc = read_cc(&mut c.sim.units);
        prove(cc.sf == a.s.sf && cc.zf == a.s.zf && cc.of == a.s.of, "later instructions leave no trace in the condition codes");
        let k = (any_u64() & 0xffff) as usize;
        prove(c.mem.read()[k] == a.s.mem[k], "later instructions leave no trace in memory");
        cover(a.stat == st::HLT, "halt");
        cover(a.stat == st::ADR, "address fault");
        cover(a.stat == st::INS, "invalid instruction");
    }
    stop();
}
/// the instruction in M moves to W
fn pipe_m() {
    let mut c = arbitrary();
    assume(!exceptional(c.pre.w.stat));
    split(c.pre.m.icode as u64, 16);
    let mut a = copy(&c.a0);
    complete_w(&mut a, &c.pre);
    let mut b = copy(&a);
    complete_m(&mut a, &c.pre);
    c.sim.step();
    let k = (any_u64() & 0xffff) as usize;
    prove(c.mem.read()[k] == a.s.mem[k], "memory stage: memory");
    b.s.mem = a.s.mem.clone();
    complete_w(&mut b, &c.sim.cur_state);
    prove(b.stat == a.stat, "memory stage: status");
    prove(same_regs(&b.s.regs, &a.s.regs), "memory stage: registers");
    if a.stat == st::OK && c.pre.m.icode == 9 { prove(b.s.pc == a.s.pc, "memory stage: return address"); }
    cover(a.stat == st::ADR, "address fault");
    stop();
}
/// the instruction in E moves to M
fn pipe_e() {
    let mut c = arbitrary();
    assume(!exceptional(c.pre.w.stat));
    split(c.pre.e.icode as u64, 16);
    let mut a = copy(&c.a0);
    complete_w(&mut a, &c.pre);
    complete_m(&mut a, &c.pre);
    let mut b = copy(&a);
    complete_e(&mut a, &c.pre);
    c.sim.step();
    let cc = read_cc(&mut c.sim.units);
    prove(cc.sf == a.s.sf && cc.zf == a.s.zf && cc.of == a.s.of, "execute stage: condition codes");
    if b.stat == st::OK {
        b.s.sf = cc.sf;
        b.s.zf = cc.zf;
        b.s.of = cc.of;
        let m = &c.sim.cur_state.m;
        complete_m(&mut b, &c.sim.cur_state);
        prove(b.stat == a.stat, "execute stage: status");
        prove(same_regs(&b.s.regs, &a.s.regs), "execute stage: registers");
        let k = (any_u64() & 0xffff) as usize;
        prove(b.s.mem[k] == a.s.mem[k], "execute stage: memory");
        prove(a.skip_d == (m.icode == 7 && !m.cnd), "execute stage: branch decision");
        if a.stat == st::OK && (a.skip_d || c.pre.e.icode == 9) { prove(b.s.pc == a.s.pc, "execute stage: next pc"); }
    }
    stop();
}
/// was the instruction in D held back in this cycle?
#[inline(always)]
fn held(pre: &PipeRegs, post: &PipeRegs) -> bool {
    !is(pre.d.stat, Stat::Bub) & is(post.e.stat, Stat::Bub) & !((post.m.icode == 7) & !post.m.cnd)
}
/// the instruction in D moves to E with the operands sequential execution would give it, or stays.
/// The state it sees is the one the (already verified) older instructions now in W and M complete to.
fn pipe_d() {
    let mut c = arbitrary();
    assume(!exceptional(c.pre.w.stat));
    split(c.pre.d.icode as u64, 16);
    c.sim.step();
    let p = &c.sim.cur_state;
    let mut a = c.a0;
    a.s.regs = c.sim.registers();
    let cc = read_cc(&mut c.sim.units);
    a.s.sf = cc.sf;
    a.s.zf = cc.zf;
    a.s.of = cc.of;
    a.s.mem = Box::new(*c.mem.read());
    complete_w(&mut a, p);
    complete_m(&mut a, p);
    if a.stat != st::OK { stop(); }
    if p.m.icode == 7 && !p.m.cnd {
        prove(matches!(p.e.stat, Stat::Bub) && matches!(p.d.stat, Stat::Bub), "instructions on a mispredicted path are squashed");
    } else if held(&c.pre, p) {
        let (x, y) = (&p.d, &c.pre.d);
        prove(x.stat == y.stat && x.icode == y.icode && x.ifun == y.ifun && x.rA == y.rA && x.rB == y.rB && x.valC == y.valC && x.valP == y.valP, "a stalled instruction stays");
        prove(p.f.pred_pc == c.pre.f.pred_pc, "a stalled fetch is repeated");
        prove(!matches!(c.pre.e.stat, Stat::Bub), "a stall lasts one cycle");
        cover(true, "stall");
    } else {
        a.s.pc = c.pre.f.pred_pc;
        let mut b = copy(&a);
        // what E now holds, written with the terms sequential execution uses: each replacement is made only
        // where the two are equal
        let mut q = p.clone();
        let d = &c.pre.d;
        let i = d.icode;
        same8(&mut q.e.icode, i);
        same8(&mut q.e.ifun, d.ifun);
        same8(&mut q.e.dstE, if isin(i, 1 << 2 | 1 << 3 | 1 << 6) { d.rB } else if isin(i, STACK) { 4 } else { 15 });
        same8(&mut q.e.dstM, if isin(i, 1 << 5 | 1 << 11) { d.rA } else { 15 });
        same64(&mut q.e.valC, d.valC);
        if unsafe { vc_same(q.e.stat as u64, d.stat as u64) } == d.stat as u64 { q.e.stat = d.stat; }
        if isin(i, 1 << 2 | 1 << 4 | 1 << 6 | 1 << 10) {
            assume(d.rA != 15);
            same64(&mut q.e.valA, rget(&a.s.regs, d.rA));
        }
        if isin(i, 1 << 9 | 1 << 11) { same64(&mut q.e.valA, a.s.regs[4]); }
        if isin(i, 1 << 7 | 1 << 8) { same64(&mut q.e.valA, d.valP); }
        if isin(i, 1 << 4 | 1 << 5 | 1 << 6) {
            assume(d.rB != 15);
            same64(&mut q.e.valB, rget(&a.s.regs, d.rB));
        }
        if isin(i, STACK) { same64(&mut q.e.valB, a.s.regs[4]); }
        if !is(d.stat, Stat::Bub) && !exceptional(d.stat) {
            // only defined instructions are executed
            let x = dec_of(&c.pre);
            assume(fields_ok(&x));
            assume(operands_ok(&x));
        }
        complete_d(&mut a, &c.pre);
        assume(a.ok);
        complete_e(&mut b, &q);
        prove(b.ok, "decode stage: a defined instruction stays one");
        prove(b.stat == a.stat, "decode stage: status");
        prove(same_cc(&b, &a), "decode stage: condition codes");
        prove(same_regs(&b.s.regs, &a.s.regs), "decode stage: registers");
        let k = (any_u64() & 0xffff) as usize;
        prove(b.s.mem[k] == a.s.mem[k], "decode stage: memory");
        if a.stat == st::OK && !matches!(c.pre.d.stat, Stat::Bub) { prove(b.s.pc == a.s.pc, "decode stage: next pc"); }
    }
    stop();
}
/// the instruction entering D is the one at the address execution continues at
fn pipe_f() {
    let mut c = arbitrary();
    assume(!exceptional(c.pre.w.stat));
    let pre = &c.pre;
    let pc = if pre.m.icode == 7 && !pre.m.cnd { pre.m.valA } else if pre.w.icode == 9 { pre.w.valM } else { pre.f.pred_pc };
    let old = Box::new(*c.mem.read());
    // a load into "no register" is not a defined instruction
    assume(!(isin(pre.e.icode, 1 << 5 | 1 << 11) && pre.e.dstM == 15));
    c.sim.step();
    let p = &c.sim.cur_state;
    let d = &p.d;
    if exceptional(p.w.stat) { stop(); }
    if is(d.stat, Stat::Bub) {
        prove((p.e.icode == 9) | (p.m.icode == 9) | (p.w.icode == 9) | (p.m.icode == 7) & !p.m.cnd, "only a return or a mispredicted branch keeps an instruction from entering");
        cover(true, "squash");
        stop();
    }
    if held(pre, p) { stop(); }
    if pc > MEM - 10 {
        prove(is(d.stat, Stat::Adr), "a fetch outside memory is an address fault");
        cover(true, "fetch fault");
        stop();
    }
    let x = fetch(&old, pc).unwrap();
    // the program does not overwrite the instruction that is being fetched
    {
        let now = c.mem.read();
        let mut i = 0;
        while i < x.len { assume(now[(pc + i) as usize] == old[(pc + i) as usize]); i += 1; }
    }
    let want = if x.icode == 0 { Stat::Hlt } else if x.icode > 11 { Stat::Ins } else { Stat::Aok };
    prove(is(d.stat, want), "fetched instruction: status");
    prove(d.icode == x.icode && (d.ifun == x.ifun || x.icode > 11), "fetched instruction: codes");
    if x.icode <= 11 {
        prove(d.rA == x.ra && d.rB == x.rb, "fetched instruction: registers");
        prove(!matches!(x.icode, 3 | 4 | 5 | 7 | 8) || d.valC == x.valc, "fetched instruction: constant");
        prove(d.valP == x.valp, "fetched instruction: next address");
    }
    stop();
}
pub static HARNESSES: &[(&str, fn())] = &[("pipe_init", pipe_init), ("pipe_inv", pipe_inv), ("pipe_w", pipe_w), ("pipe_m", pipe_m), ("pipe_e", pipe_e), ("pipe_d", pipe_d), ("pipe_f", pipe_f)];
