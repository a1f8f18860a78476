// Shared by every harness: the verification primitives and the specification of the
// Y86-64 instruction set (written from CS:APP3e, independently of the code under check).
#[allow(improper_ctypes)]
extern "C-unwind" {
    fn vc_any(width: u32) -> u64;
    fn vc_any_mem(p: *mut u8, n: usize);
    fn vc_assume(b: bool);
    fn vc_assert(b: bool, name: *const u8, len: usize);
    fn vc_cover(b: bool, name: *const u8, len: usize);
    fn vc_split(x: u64, n: u64) -> u64;
    fn vc_same(x: u64, v: u64) -> u64;
    fn vc_stop() -> !;
}
#[allow(unused)]
#[inline(always)]
fn any_u64() -> u64 { unsafe { vc_any(64) } }
#[allow(unused)]
#[inline(always)]
fn any_u8() -> u8 { unsafe { vc_any(8) as u8 } }
#[allow(unused)]
#[inline(always)]
fn any_nibble() -> u8 { unsafe { vc_any(4) as u8 } }
#[allow(unused)]
#[inline(always)]
fn any_bool() -> bool { unsafe { vc_any(1) & 1 != 0 } }
#[allow(unused)]
#[inline(always)]
fn any_mem(m: &mut [u8]) { unsafe { vc_any_mem(m.as_mut_ptr(), m.len()) } }
/// arbitrary contents, byte by byte (values left over from earlier cycles)
#[allow(unused)]
#[inline(always)]
fn raw_any<T>(x: &mut T) { unsafe { vc_any_mem(x as *mut T as *mut u8, core::mem::size_of::<T>()) } }
#[allow(unused)]
#[inline(always)]
fn assume(b: bool) { unsafe { vc_assume(b) } }
#[allow(unused)]
#[inline(always)]
fn prove(b: bool, name: &'static str) { unsafe { vc_assert(b, name.as_ptr(), name.len()) } }
#[allow(unused)]
#[inline(always)]
fn cover(b: bool, name: &'static str) { unsafe { vc_cover(b, name.as_ptr(), name.len()) } }
#[allow(unused)]
#[inline(always)]
fn split(x: u64, n: u64) -> u64 { unsafe { vc_split(x, n) } }
/// proof hints: write a value with a given term where the two are provably equal (no effect otherwise)
#[allow(unused)]
#[inline(always)]
fn same8(x: &mut u8, v: u8) { *x = unsafe { vc_same(*x as u64, v as u64) } as u8 }
#[allow(unused)]
#[inline(always)]
fn same64(x: &mut u64, v: u64) { *x = unsafe { vc_same(*x, v) } }
#[allow(unused)]
#[inline(always)]
fn stop() -> ! { unsafe { vc_stop() } }

#[allow(unused)]
const MEM: u64 = 1 << 16;
#[allow(unused)]
const MEMZ: usize = 1 << 16;

/// Outcome of one instruction.
#[allow(unused)]
mod st {
    pub const OK: u8 = 0;
    pub const HLT: u8 = 1;
    pub const ADR: u8 = 2;
    pub const INS: u8 = 3;
}

/// Architectural state.
#[allow(unused)]
#[derive(Clone)]
pub struct Spec {
    pub regs: [u64; 16],
    pub sf: bool,
    pub zf: bool,
    pub of: bool,
    pub pc: u64,
    pub mem: Box<[u8; MEMZ]>,
}

#[allow(unused)]
#[derive(Clone, Copy)]
pub struct Dec {
    pub icode: u8,
    pub ifun: u8,
    pub ra: u8,
    pub rb: u8,
    pub valc: u64,
    pub valp: u64,
    /// encoded length
    pub len: u64,
}

#[allow(unused)]
#[inline(never)]
fn ld8(mem: &[u8; MEMZ], a: u64) -> u64 {
    // caller guarantees a + 8 <= MEM
    unsafe { (mem.as_ptr().add(a as usize) as *const u64).read_unaligned() }
}
#[allow(unused)]
#[inline(never)]
fn st8(mem: &mut [u8; MEMZ], a: u64, v: u64) {
    unsafe { (mem.as_mut_ptr().add(a as usize) as *mut u64).write_unaligned(v) }
}
#[allow(unused)]
#[inline(always)]
fn spec_len(icode: u8) -> u64 {
    // halt nop cmov irmov rmmov mrmov op j call ret push pop iop - - -
    const L: [u8; 16] = [1, 1, 2, 10, 10, 10, 2, 9, 9, 1, 2, 2, 10, 1, 1, 1];
    L[(icode & 15) as usize] as u64
}
/// Decodes the instruction at `pc` (which lies in memory); None if its encoding does not fit in
/// memory. Case-splits on the instruction code.
#[allow(unused)]
#[inline(never)]
fn fetch(mem: &[u8; MEMZ], pc: u64) -> Option<Dec> {
    // caller guarantees pc < MEM
    let p = unsafe { mem.as_ptr().add(pc as usize) };
    let mut b = [0u8; 10];
    b[0] = unsafe { *p };
    let icode = split((b[0] >> 4) as u64, 16);
    let len = spec_len(icode as u8);
    if pc + len > MEM { return None; }
    let mut i = 1;
    while i < len {
        b[i as usize] = unsafe { *p.add(i as usize) };
        i += 1;
    }
    Some(decode_bytes(&b, pc))
}
#[allow(unused)]
#[inline(always)]
fn decode_bytes(b: &[u8; 10], pc: u64) -> Dec {
    let icode = b[0] >> 4;
    let regs = matches!(icode, 2 | 3 | 4 | 5 | 6 | 10 | 11 | 12);
    let c2 = u64::from_le_bytes([b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]]);
    let c1 = u64::from_le_bytes([b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]]);
    let len = spec_len(icode);
    Dec {
        icode,
        ifun: b[0] & 15,
        ra: if regs { b[1] >> 4 } else { 15 },
        rb: if regs { b[1] & 15 } else { 15 },
        valc: if regs { c2 } else { c1 },
        valp: pc.wrapping_add(len),
        len,
    }
}
/// addq/subq/andq/xorq on 64-bit values: b OP a
#[allow(unused)]
#[inline(always)]
fn spec_alu(op: u8, a: u64, b: u64) -> u64 {
    match op {
        0 => b.wrapping_add(a),
        1 => b.wrapping_sub(a),
        2 => b & a,
        3 => b ^ a,
        _ => 0,
    }
}
/// signed overflow of b OP a, stated over the integers
#[allow(unused)]
#[inline(always)]
fn spec_of(op: u8, a: u64, b: u64) -> bool {
    let (x, y) = (a as i64 as i128, b as i64 as i128);
    let r = match op {
        0 => y + x,
        1 => y - x,
        _ => return false,
    };
    r != r as i64 as i128
}
#[allow(unused)]
#[inline(always)]
fn spec_cond(f: u8, sf: bool, zf: bool, of: bool) -> bool {
    match f {
        0 => true,
        1 => (sf != of) | zf,
        2 => sf != of,
        3 => zf,
        4 => !zf,
        5 => sf == of,
        6 => (sf == of) & !zf,
        _ => false,
    }
}
#[allow(unused)]
#[inline(always)]
fn rget(r: &[u64; 16], i: u8) -> u64 {
    let v = r[(i & 15) as usize];
    if i == 15 { 0 } else { v }
}
#[allow(unused)]
#[inline(always)]
fn rset(r: &mut [u64; 16], i: u8, v: u64) {
    let k = (i & 15) as usize;
    let old = r[k];
    r[k] = if i == 15 { old } else { v };
}

/// Every operand register an instruction names is one of the fifteen program registers.
#[allow(unused)]
#[inline(always)]
fn operands_ok(d: &Dec) -> bool {
    match d.icode {
        2 | 4 | 5 | 6 => d.ra != 15 && d.rb != 15,
        3 | 12 => d.rb != 15,
        10 | 11 => d.ra != 15,
        _ => true,
    }
}
/// Function codes and fixed register fields are the ones the instruction set defines.
#[allow(unused)]
#[inline(always)]
fn fields_ok(d: &Dec) -> bool {
    match d.icode {
        2 | 7 => d.ifun <= 6,
        6 => d.ifun <= 3,
        3 => d.ifun == 0 && d.ra == 15,
        12 => d.ifun <= 3 && d.ra == 15,
        10 | 11 => d.ifun == 0 && d.rb == 15,
        0..=11 => d.ifun == 0,
        _ => true,
    }
}

/// Executes one decoded instruction (function codes outside the defined ranges: `andq`-like
/// undefined operations are not reached by callers that check `fields_ok`).
#[allow(unused)]
#[inline(never)]
fn exec(s: &mut Spec, d: &Dec, iopq: bool) -> u8 {
    let rsp = s.regs[4];
    let va = rget(&s.regs, d.ra);
    let vb = rget(&s.regs, d.rb);
    match d.icode {
        0 => return st::HLT,
        1 => s.pc = d.valp,
        2 => {
            let t = spec_cond(d.ifun, s.sf, s.zf, s.of);
            let old = rget(&s.regs, d.rb);
            rset(&mut s.regs, d.rb, if t { va } else { old });
            s.pc = d.valp;
        }
        3 => {
            rset(&mut s.regs, d.rb, d.valc);
            s.pc = d.valp;
        }
        4 => {
            let a = vb.wrapping_add(d.valc);
            if a > MEM - 8 { return st::ADR; }
            st8(&mut s.mem, a, va);
            s.pc = d.valp;
        }
        5 => {
            let a = vb.wrapping_add(d.valc);
            if a > MEM - 8 { return st::ADR; }
            let v = ld8(&s.mem, a);
            rset(&mut s.regs, d.ra, v);
            s.pc = d.valp;
        }
        6 => {
            spec_op(s, d.ifun, va, d.rb);
            s.pc = d.valp;
        }
        7 => {
            let t = spec_cond(d.ifun, s.sf, s.zf, s.of);
            s.pc = if t { d.valc } else { d.valp };
        }
        8 => {
            let a = rsp.wrapping_sub(8);
            if a > MEM - 8 { return st::ADR; }
            st8(&mut s.mem, a, d.valp);
            s.regs[4] = a;
            s.pc = d.valc;
        }
        9 => {
            if rsp > MEM - 8 { return st::ADR; }
            s.pc = ld8(&s.mem, rsp);
            s.regs[4] = rsp.wrapping_add(8);
        }
        10 => {
            let a = rsp.wrapping_sub(8);
            if a > MEM - 8 { return st::ADR; }
            st8(&mut s.mem, a, va);
            s.regs[4] = a;
            s.pc = d.valp;
        }
        11 => {
            if rsp > MEM - 8 { return st::ADR; }
            let v = ld8(&s.mem, rsp);
            s.regs[4] = rsp.wrapping_add(8);
            rset(&mut s.regs, d.ra, v);
            s.pc = d.valp;
        }
        12 if iopq => {
            spec_op(s, d.ifun, d.valc, d.rb);
            s.pc = d.valp;
        }
        _ => return st::INS,
    }
    st::OK
}
#[allow(unused)]
#[inline(always)]
fn spec_op(s: &mut Spec, op: u8, a: u64, rb: u8) {
    let b = rget(&s.regs, rb);
    let e = spec_alu(op, a, b);
    s.of = spec_of(op, a, b);
    s.zf = e == 0;
    s.sf = (e as i64) < 0;
    rset(&mut s.regs, rb, e);
}
