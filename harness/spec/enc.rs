// C11: contract of the encoder (LineInfo::write_object, Inst::len, Inst::icode, Imm::desymbol).
use crate::asm::{Addr, CondFn, Imm, Inst, OpFn, Reg};
use crate::isa::{ConditionCode, RegFile};
use crate::object::{LineInfo, Object, BIN_SIZE};

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}

/// the program registers by number (CS:APP3e, figure 4.4)
fn reg(n: u8) -> Reg {
    match n {
        0 => Reg::RAX,
        1 => Reg::RCX,
        2 => Reg::RDX,
        3 => Reg::RBX,
        4 => Reg::RSP,
        5 => Reg::RBP,
        6 => Reg::RSI,
        7 => Reg::RDI,
        8 => Reg::R8,
        9 => Reg::R9,
        10 => Reg::R10,
        11 => Reg::R11,
        12 => Reg::R12,
        13 => Reg::R13,
        _ => Reg::R14,
    }
}
/// condition by function code (figure 4.3)
fn cnd(n: u8) -> CondFn {
    match n { 0 => CondFn::YES, 1 => CondFn::LE, 2 => CondFn::L, 3 => CondFn::E, 4 => CondFn::NE, 5 => CondFn::GE, _ => CondFn::G }
}
fn opf(n: u8) -> OpFn {
    match n { 0 => OpFn::ADD, 1 => OpFn::SUB, 2 => OpFn::AND, _ => OpFn::XOR }
}
fn any_reg() -> u8 { let r = any_nibble(); assume(r < 15); r }
fn any_cnd() -> u8 { let r = any_u8(); assume(r < 7); r }
fn any_op() -> u8 { let r = any_u8(); assume(r < 4); r }

struct T { o: Box<Object>, before: Box<[u8; MEMZ]>, va: u64, vb: u64, addr: u64 }
fn setup() -> T {
    let mut o = Box::new(Object::default());
    let (va, vb) = (any_u64(), any_u64());
    o.symbols.insert("a".to_string(), va);
    o.symbols.insert("b_1".to_string(), vb);
    // something already assembled anywhere in memory
    let d = LineInfo { addr: Some(any_u64() & 0xfff8), inst: None, label: None, data: Some((8, Imm::Num(any_u64() as i64))), src: String::new() };
    let _ = d.write_object(&mut o);
    let before = Box::new(o.init_mem());
    T { o, before, va, vb, addr: any_u64() }
}
/// an operand: a number, a defined label or an undefined one; with its value
fn any_imm(t: &T) -> (Imm, Option<u64>) {
    match split(any_u64() & 3, 4) {
        0 => (Imm::Label("a".to_string()), Some(t.va)),
        1 => (Imm::Label("b_1".to_string()), Some(t.vb)),
        2 => (Imm::Label("undefined".to_string()), None),
        _ => { let n = any_u64(); (Imm::Num(n as i64), Some(n)) }
    }
}
/// writes `inst` at an arbitrary address; `enc` is its encoding, None if it must be rejected
fn check(mut t: T, inst: Inst<Imm>, enc: Option<&[u8]>, label: bool) {
    let n = inst.len();
    if let Some(e) = enc {
        prove(n == e.len(), "the length is that of the encoding");
        prove(inst.icode() == e[0] >> 4, "instruction code");
    }
    let li = LineInfo { addr: Some(t.addr), inst: Some(inst), label: if label { Some("b_1".to_string()) } else { None }, data: None, src: String::new() };
    let r = li.write_object(&mut t.o);
    finish(&t, enc, r.is_ok());
}
fn finish(t: &T, enc: Option<&[u8]>, ok: bool) {
    let after = Box::new(t.o.init_mem());
    let fits = match enc { Some(e) => t.addr <= MEM - e.len() as u64, None => false };
    prove(ok == fits, "accepted exactly if every operand is defined and the encoding lies in memory");
    cover(fits, "encoded");
    cover(!fits, "rejected");
    if let Some(e) = enc {
        if fits {
            let mut i = 0;
            while i < e.len() {
                prove(after[t.addr as usize + i] == e[i], "the bytes are the encoding of the instruction or datum");
                i += 1;
            }
            let k = any_u64();
            assume(k < MEM && k.wrapping_sub(t.addr) >= e.len() as u64);
            prove(after[k as usize] == t.before[k as usize], "nothing else is written");
        }
    }
    prove(t.o.symbols.len() == 2 && t.o.symbols.get("a") == Some(&t.va) && t.o.symbols.get("b_1") == Some(&t.vb), "symbols are only read");
    stop()
}
fn with(head: &[u8], v: u64) -> Vec<u8> {
    let mut x = head.to_vec();
    x.extend_from_slice(&v.to_le_bytes());
    x
}
fn e_simple() {
    let t = setup();
    let (i, e) = match split(any_u64() & 3, 4) { 0 => (Inst::HALT, 0x00), 1 => (Inst::NOP, 0x10), _ => (Inst::RET, 0x90) };
    check(t, i, Some(&[e]), any_bool());
}
fn e_cmov() {
    let t = setup();
    let (c, a, b) = (any_cnd(), any_reg(), any_reg());
    check(t, Inst::CMOVX(cnd(c), reg(a), reg(b)), Some(&[0x20 | c, a << 4 | b]), false);
}
fn e_irmov() {
    let t = setup();
    let (b, (i, v)) = (any_reg(), any_imm(&t));
    let e = v.map(|v| with(&[0x30, 0xf0 | b], v));
    check(t, Inst::IRMOVQ(reg(b), i), e.as_deref(), false);
}
fn any_addr(b: u8) -> (Addr, u64) {
    let v = any_u64();
    if any_bool() { (Addr(Some(v), reg(b)), v) } else { (Addr(None, reg(b)), 0) }
}
fn e_rmmov() {
    let t = setup();
    let (a, b) = (any_reg(), any_reg());
    let (ad, v) = any_addr(b);
    check(t, Inst::RMMOVQ(reg(a), ad), Some(&with(&[0x40, a << 4 | b], v)), false);
}
fn e_mrmov() {
    let t = setup();
    let (a, b) = (any_reg(), any_reg());
    let (ad, v) = any_addr(b);
    check(t, Inst::MRMOVQ(ad, reg(a)), Some(&with(&[0x50, a << 4 | b], v)), false);
}
fn e_op() {
    let t = setup();
    let (f, a, b) = (any_op(), any_reg(), any_reg());
    check(t, Inst::OPQ(opf(f), reg(a), reg(b)), Some(&[0x60 | f, a << 4 | b]), false);
}
fn e_jump() {
    let t = setup();
    let (c, (i, v)) = (any_cnd(), any_imm(&t));
    let e = v.map(|v| with(&[0x70 | c], v));
    check(t, Inst::JX(cnd(c), i), e.as_deref(), false);
}
fn e_call() {
    let t = setup();
    let (i, v) = any_imm(&t);
    let e = v.map(|v| with(&[0x80], v));
    check(t, Inst::CALL(i), e.as_deref(), true);
}
fn e_push() {
    let t = setup();
    let a = any_reg();
    check(t, Inst::PUSHQ(reg(a)), Some(&[0xa0, a << 4 | 15]), false);
}
fn e_pop() {
    let t = setup();
    let a = any_reg();
    check(t, Inst::POPQ(reg(a)), Some(&[0xb0, a << 4 | 15]), false);
}
fn e_iop() {
    let t = setup();
    let (f, b, (i, v)) = (any_op(), any_reg(), any_imm(&t));
    let e = v.map(|v| with(&[0xc0 | f, 0xf0 | b], v));
    check(t, Inst::IOPQ(opf(f), i, reg(b)), e.as_deref(), false);
}
fn e_data() {
    let mut t = setup();
    let (i, v) = any_imm(&t);
    let sz = 1u8 << split(any_u64() & 3, 4);
    let e = v.map(|v| v.to_le_bytes()[..sz as usize].to_vec());
    let li = LineInfo { addr: Some(t.addr), inst: None, label: None, data: Some((sz, i)), src: String::new() };
    let r = li.write_object(&mut t.o);
    finish(&t, e.as_deref(), r.is_ok());
}
fn e_none() {
    let mut t = setup();
    // labels, .pos and .align occupy no memory, wherever they are
    let at = any_bool();
    let li = LineInfo { addr: if at { Some(t.addr) } else { None }, inst: None, label: if at && any_bool() { Some("a".to_string()) } else { None }, data: None, src: String::new() };
    prove(li.write_object(&mut t.o).is_ok(), "a line without code or data is accepted anywhere");
    let after = Box::new(t.o.init_mem());
    let k = any_u64() & (MEM - 1);
    prove(after[k as usize] == t.before[k as usize], "nothing is written");
    stop()
}
pub static HARNESSES: &[(&str, fn())] = &[("e_simple", e_simple), ("e_cmov", e_cmov), ("e_irmov", e_irmov), ("e_rmmov", e_rmmov), ("e_mrmov", e_mrmov), ("e_op", e_op), ("e_jump", e_jump), ("e_call", e_call),
    ("e_push", e_push), ("e_pop", e_pop), ("e_iop", e_iop), ("e_data", e_data), ("e_none", e_none)];
