// C13: addresses, labels and directives, from any position in memory.
use crate::asm::{assemble, AssembleOption};
use crate::isa::{ConditionCode, RegFile};
use crate::object::{ObjectExt, BIN_SIZE};

static mut START: u64 = 0;
static mut LINES: u64 = 0;
/// the position reached by whatever precedes the text
pub fn asm_line_head(cur: &mut u64) {
    unsafe {
        if LINES == 0 { *cur = START; }
        LINES += 1;
    }
}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}
fn asm_at(start: u64, src: &str) -> Option<ObjectExt> {
    unsafe { START = start; LINES = 0; }
    assemble(src, AssembleOption::default()).ok()
}
fn sym(o: &ObjectExt, l: &str) -> Option<u64> { o.obj.symbols.get(l).copied() }
fn line(o: &ObjectExt, n: i64) -> Option<u64> { o.source.get_line(n).and_then(|l| l.addr) }

/// .align moves to the next multiple
fn align_to(num: &str, n: u64) {
    let start = any_u64();
    let mut t = String::from("before:\nat: .align ");
    t.push_str(num);
    t.push_str("\nafter:");
    let o = asm_at(start, &t);
    let up = start as u128 + (n - 1) as u128 & !((n - 1) as u128);
    prove(o.is_some() == (up < 1 << 64), "an alignment is accepted wherever the address exists");
    if let Some(o) = o {
        let up = up as u64;
        prove(sym(&o, "before") == Some(start), "a label is the current address");
        prove(sym(&o, "after") == Some(up), ".align moves to the next multiple, or stays");
        prove(sym(&o, "at") == Some(up) && line(&o, 2) == Some(up), "an aligned line has the aligned address");
        prove(line(&o, 1) == Some(start) && line(&o, 3) == Some(up), "every line starts where the one before it ends");
        let m = Box::new(o.obj.init_mem());
        let k = any_u64() & (MEM - 1);
        prove(m[k as usize] == 0, "directives without data write nothing");
    }
}
const AL: [(&str, u64); 14] = [("1", 1), ("2", 2), ("4", 4), ("8", 8), ("16", 16), ("0x20", 32), ("64", 64), ("0x80", 128), ("256", 256), ("512", 512), ("4096", 4096), ("0x10000", 65536), ("4294967296", 1 << 32), ("0x8000000000000000", 1 << 63)];
fn align() {
    let (s, n) = AL[split(any_u64() % 14, 14) as usize];
    align_to(s, n);
    cover(true, "aligned");
    stop()
}
/// data behind an alignment
fn align_data() {
    let start = any_u64();
    let o = asm_at(start, ".align 8\nx: .quad x\n.byte 1\n.align 4\ny: .long 0x01020304");
    let x = start as u128 + 7 & !7;
    prove(o.is_some() == (x <= MEM as u128 - 16), "accepted exactly if everything fits in memory");
    cover(o.is_some(), "assembled");
    if let Some(o) = o {
        let x = x as u64;
        prove(sym(&o, "x") == Some(x) && sym(&o, "y") == Some(x + 12), "a label is the address of what follows it");
        let m = Box::new(o.obj.init_mem());
        let want = x.to_le_bytes();
        let mut i = 0;
        while i < 8 { prove(m[x as usize + i] == want[i], "a label as datum is its address"); i += 1; }
        prove(m[x as usize + 8] == 1, "data");
        i = 9;
        while i < 12 { prove(m[x as usize + i] == 0, "padding is zero"); i += 1; }
        while i < 16 { prove(m[x as usize + i] == (16 - i) as u8, "data"); i += 1; }
        let k = any_u64();
        assume(k < MEM && k.wrapping_sub(x) >= 16);
        prove(m[k as usize] == 0, "nothing else is written");
    }
    stop()
}
const PO: [(&str, u64); 10] = [("0", 0), ("0x200", 0x200), ("100", 100), ("0xfff0", 0xfff0), ("65535", 65535), ("0x10000", 65536), ("-1", u64::MAX), ("-8", u64::MAX - 7), ("0x7fffffffffffffff", i64::MAX as u64), ("0xfFfF", 65535)];
/// .pos moves anywhere
fn pos() {
    let start = any_u64();
    let (s, n) = PO[split(any_u64() % 10, 10) as usize];
    let mut t = String::from("before:\nat: .pos ");
    t.push_str(s);
    t.push_str("\nafter:");
    let o = asm_at(start, &t);
    prove(o.is_some(), "a position is accepted anywhere");
    if let Some(o) = o {
        prove(sym(&o, "before") == Some(start), "a label is the current address");
        prove(sym(&o, "after") == Some(n) && sym(&o, "at") == Some(n) && line(&o, 2) == Some(n) && line(&o, 3) == Some(n), ".pos moves to the given address");
    }
    t.push_str("\nhalt\n");
    let o = asm_at(start, &t);
    prove(o.is_some() == (n < MEM), "code outside memory is rejected");
    cover(o.is_some(), "in memory");
    cover(o.is_none(), "outside");
    stop()
}
/// labels used before and after their definition, across moves; later text wins where it overlaps
fn cross() {
    let start = any_u64();
    let o = asm_at(start, "a: irmovq b, %rdx\n.pos 0x4000\nb: .quad a\nc: .word c\n.pos 0x4004\n.byte 0xff\nd: jmp e\n.pos 0x300\ne:");
    let n = 10;
    prove(o.is_some() == (start <= MEM - n), "accepted exactly if everything fits in memory");
    cover(o.is_some(), "assembled");
    if let Some(o) = o {
        prove(sym(&o, "a") == Some(start) && sym(&o, "b") == Some(0x4000) && sym(&o, "c") == Some(0x4008) && sym(&o, "d") == Some(0x4005) && sym(&o, "e") == Some(0x300) && o.obj.symbols.len() == 5, "a label is the address of what follows it");
        let m = Box::new(o.obj.init_mem());
        // what is written later replaces what was there
        let mut want = [0u8; 14];
        want[..8].copy_from_slice(&start.to_le_bytes());
        want[8] = 0x08;
        want[9] = 0x40;
        want[4] = 0xff;
        want[5] = 0x70;
        want[6..14].copy_from_slice(&0x300u64.to_le_bytes());
        let mut i = 0;
        while i < 14 { prove(m[0x4000 + i] == want[i], "later text replaces earlier text"); i += 1; }
        let first = [0x30, 0xf2, 0x00, 0x40, 0, 0, 0, 0, 0, 0];
        i = 0;
        while i < 10 {
            let k = start as usize + i;
            prove(k >= 0x4000 && k < 0x400e || m[k] == first[i], "a forward reference is the address of the label");
            i += 1;
        }
    }
    stop()
}
/// truncated label data, sizes of data directives
fn sizes() {
    let start = any_u64();
    let o = asm_at(start, "a: .byte z\nb: .word z\nc: .long z\nd: .quad z\nz:");
    prove(o.is_some() == (start <= MEM - 15), "accepted exactly if everything fits in memory");
    if let Some(o) = o {
        prove(sym(&o, "a") == Some(start) && sym(&o, "b") == Some(start + 1) && sym(&o, "c") == Some(start + 3) && sym(&o, "d") == Some(start + 7) && sym(&o, "z") == Some(start + 15), "sizes of data directives");
        let z = (start + 15).to_le_bytes();
        let m = Box::new(o.obj.init_mem());
        const W: [usize; 15] = [0, 0, 1, 0, 1, 2, 3, 0, 1, 2, 3, 4, 5, 6, 7];
        let mut i = 0;
        while i < 15 { prove(m[start as usize + i] == z[W[i]], "a label as datum is its address, cut to size"); i += 1; }
    }
    stop()
}
/// undefined labels are reported wherever they are used
fn undefined() {
    let start = any_u64();
    for s in ["irmovq nn, %rax", "iaddq nn, %rax", "jmp nn", "jle nn", "call nn", ".quad nn", ".byte nn"] {
        let mut t = String::from("n: nnn:");
        t.truncate(2);
        t.push_str("\n_nn: ");
        t.push_str(s);
        t.push_str("\nnn_:\nN:");
        prove(asm_at(start, &t).is_none(), "an undefined label is reported");
    }
    stop()
}
pub static HARNESSES: &[(&str, fn())] = &[("align", align), ("align_data", align_data), ("pos", pos), ("cross", cross), ("sizes", sizes), ("undefined", undefined)];
