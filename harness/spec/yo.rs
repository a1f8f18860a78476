// C15: the .yo listing (ObjectExt Display) and its loader (yis), composed.
use crate::asm::{Addr, CondFn, Imm, Inst, OpFn, Reg};
use crate::isa::{ConditionCode, RegFile};
use crate::object::{LineInfo, ObjectExt, BIN_SIZE};

static mut TEXT: String = String::new();
static mut WANT: Option<Box<[u8; MEMZ]>> = None;
pub fn asm_line_head(_: &mut u64) {}
/// the loaded image reaches the simulator here
pub fn isa_loop_head(bin: &mut [u8; BIN_SIZE], pc: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {
    prove(*pc == 0, "the program starts at address 0");
    let want = unsafe { &*(&raw const WANT) };
    prove(want.is_some(), "a malformed listing is rejected");
    if let Some(m) = want {
        let k = any_u64();
        assume(k < MEM);
        prove(bin[k as usize] == m[k as usize], "the listing loads to the image it was made from");
        cover(true, "loaded");
    }
    stop()
}
/// the loader as it is, with the command line, log setup and file system replaced
mod yis {
    mod std {
        pub use ::std::*;
        pub mod fs {
            pub use ::std::fs::*;
            pub fn read_to_string(name: impl AsRef<::std::path::Path>) -> ::std::io::Result<::std::string::String> {
                super::super::super::prove(name.as_ref().as_os_str() == "prog.yo", "the named file is read");
                Ok(unsafe { (*(&raw const super::super::super::TEXT)).clone() })
            }
        }
    }
    mod binutils {
        pub use ::binutils::*;
        pub fn logging_setup<T, U>(_: T, _: U) {}
        pub fn verbose_level_to_trace<T>(_: T) {}
    }
    use crate as y86_sim;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/bin/yis.rs"));
    impl Args {
        fn parse() -> Args { Args { input: String::from("prog.yo"), verbose: verbose::Verbosity::new(0, 0) } }
    }
    pub fn run() -> bool { main().is_ok() }
}
/// loads a listing that stands for the given image (none: malformed)
fn load(text: String, want: Option<Box<[u8; MEMZ]>>) {
    unsafe {
        let bad = want.is_none();
        TEXT = text;
        WANT = want;
        let ok = yis::run();
        prove(bad && !ok, "the listing of a program loads");
        cover(true, "rejected");
    }
    stop()
}
#[inline(never)]
fn hex(n: u8) -> u8 { if n < 10 { b'0' + n } else { b'a' - 10 + n } }

fn reg(n: u8) -> Reg { match n & 3 { 0 => Reg::RAX, 1 => Reg::RSP, 2 => Reg::R8, _ => Reg::R14 } }
/// a line of every size
fn any_line(addr: u64, kind: u64) -> LineInfo {
    let v = any_u64();
    let r = any_u8();
    let mut l = LineInfo { addr: Some(addr), inst: None, label: None, data: None, src: String::from("x: src | 1 # | :") };
    match kind {
        0 => l.inst = Some(Inst::RET),
        1 => l.inst = Some(Inst::OPQ(OpFn::XOR, reg(r), reg(r >> 2))),
        2 => l.inst = Some(Inst::JX(CondFn::LE, Imm::Num(v as i64))),
        3 => l.inst = Some(Inst::MRMOVQ(Addr(Some(v), reg(r)), reg(r >> 2))),
        4 => l.data = Some((1, Imm::Num(v as i64))),
        5 => l.data = Some((2, Imm::Num(v as i64))),
        6 => l.data = Some((4, Imm::Num(v as i64))),
        7 => l.data = Some((8, Imm::Num(v as i64))),
        _ => {}
    }
    l
}
const SIZE: [usize; 9] = [1, 2, 9, 10, 1, 2, 4, 8, 0];
/// an address with a given number of digits
fn any_addr() -> (u64, usize) {
    let n = 1 + split(any_u64() & 3, 4) as usize;
    let a = any_u64();
    assume(a < 1 << 4 * n && (n == 1 || a >= 1 << 4 * (n - 1)));
    (a, n)
}
fn listing() {
    let kind = split(any_u64() % 9, 9);
    let (a, _) = any_addr();
    let n = SIZE[kind as usize];
    assume(a <= MEM - n as u64);
    let mut o = ObjectExt::default();
    let l = any_line(a, kind);
    prove(l.write_object(&mut o.obj).is_ok(), "the line is written");
    let blank = LineInfo { addr: None, inst: None, label: None, data: None, src: String::from("# : 0x1: | 00") };
    o.source = vec![blank, l].into();
    let text = format!("{}", o);
    let t = text.as_bytes();
    let m = Box::new(o.obj.init_mem());
    let first = b"                             | # : 0x1: | 00\n";
    prove(t.len() == first.len() + 8 + 21 + 2 + 16 + 1, "one line per source line");
    prove(&t[..first.len()] == first, "a line without address shows its source only");
    let t = &t[first.len()..];
    prove(t[0] == b'0' && t[1] == b'x' && t[6] == b':' && t[7] == b' ', "address field");
    let mut i = 0;
    while i < 4 { prove(t[2 + i] == hex((a >> (12 - 4 * i) & 15) as u8), "the address of the line"); i += 1; }
    i = 0;
    while i < n {
        let b = m[a as usize + i];
        prove(t[8 + 2 * i] == hex(b >> 4) && t[9 + 2 * i] == hex(b & 15), "the bytes of the line, in order");
        i += 1;
    }
    i = 8 + 2 * n;
    while i < 29 { prove(t[i] == b' ', "padding"); i += 1; }
    prove(&t[29..] == b"| x: src | 1 # | :\n", "the source of the line");
    load(text, Some(m))
}
/// lines that overlap, in the order of the text
fn overlap() {
    let (a, b) = (any_u64(), any_u64());
    assume(a >= 0x1000 && a <= MEM - 8 && b >= 0x1000 && b <= MEM - 2);
    let mut o = ObjectExt::default();
    let mut v = vec![];
    for (at, kind) in [(a, 7), (b, 1)] {
        let l = any_line(at, kind);
        let _ = l.write_object(&mut o.obj);
        v.push(l);
    }
    o.source = v.into();
    let m = Box::new(o.obj.init_mem());
    load(format!("{}", o), Some(m))
}
/// labels behind the end of memory
fn outside() {
    let n = split(any_u64() % 12, 12) as u32;
    let a = any_u64();
    assume(a >> 16 + 4 * n > 0 && (n == 11 || a >> 20 + 4 * n == 0));
    let mut o = ObjectExt::default();
    let l = any_line(a, 8);
    prove(l.write_object(&mut o.obj).is_ok(), "a label may stand anywhere");
    o.source = vec![any_line(0x20, 5), l].into();
    let m = Box::new(o.obj.init_mem());
    load(format!("{}", o), Some(m))
}
#[inline(never)]
fn digit(c: u8) -> u64 {
    let lower = c | 0x20;
    if c >= b'0' && c <= b'9' { (c - b'0') as u64 } else if lower >= b'a' && lower <= b'f' { (lower - b'a') as u64 + 10 } else { 16 }
}
/// characters that separate nothing
#[inline(never)]
fn any_char() -> u8 {
    let c = any_u8();
    assume(c > 32 && c < 127);
    assume(c != b'+' && c != b'-' && c != b'|' && c != b':');
    c
}
/// any bytes at any address, as text
fn line() {
    let mut d = [0u8; 10];
    let n = split(any_u64() % 7, 7) as usize;
    let mut i = 0;
    while i < 4 + n { d[i] = any_char(); i += 1; }
    let mut t = String::from("  | a line\n0x12: 00|\r\n \t0x");
    i = 0;
    while i < 4 { t.push(d[i] as char); i += 1; }
    t.push_str("\t:  ");
    while i < 4 + n { t.push(d[i] as char); i += 1; }
    t.push_str(" | 0x18: 12 | x: y\n\nno source\nx: 0x2\n 0x30 | z\n0x0034: 5A|");
    let (mut a, mut ok) = (0, true);
    i = 0;
    while i < 4 { let x = digit(d[i]); ok &= x < 16; a = a << 4 | x & 15; i += 1; }
    while i < 4 + n { let c = d[i]; ok &= digit(c) < 16; i += 1; }
    ok &= n & 1 == 0 && a <= MEM - n as u64 / 2;
    cover(ok, "well-formed");
    cover(!ok, "malformed");
    let mut m = Box::new([0u8; MEMZ]);
    i = 0;
    while i < n / 2 {
        let (h, l) = (digit(d[4 + 2 * i]), digit(d[5 + 2 * i]));
        m[(a + i as u64 & MEM - 1) as usize] = (h << 4 | l) as u8;
        i += 1;
    }
    m[0x34] = 0x5a;
    load(t, if ok { Some(m) } else { None })
}
/// malformed listings, and bytes outside memory
fn malformed() {
    const T: [&str; 14] = ["12: 0", "0x10000: 00", "0xffff: 0000", "0xfff9: 0011223344556677", "0xffffffffffffffff: 11", "-0x1: 11", "-8: 1122334455667788", "0x: 00", ": 00", "0x1g: 00", "0x10: 0x00", "0x10: 00 11", "0x10: : 00", "\u{e9}: 00"];
    let k = split(any_u64() % 14, 14) as usize;
    let mut t = String::from("0x0000: 1010 | nop\n");
    t.push_str(T[k]);
    t.push_str(" | x\n");
    load(t, None)
}
pub static HARNESSES: &[(&str, fn())] = &[("listing", listing), ("overlap", overlap), ("outside", outside), ("line", line), ("malformed", malformed)];
