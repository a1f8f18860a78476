// C12: the assembler (lexer, parser and assembly loop) on source text, from any position in memory.
use crate::asm::{assemble, AssembleOption};
use crate::isa::{ConditionCode, RegFile};
use crate::object::{ObjectExt, BIN_SIZE};

static mut START: u64 = 0;
static mut LINES: u64 = 0;
/// the position reached by whatever precedes the text
pub fn asm_line_head(cur: &mut u64) {
    unsafe {
        if LINES == 0 { *cur = START; }
        LINES += 1;
    }
}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}
fn asm_at(start: u64, src: &str) -> Option<ObjectExt> {
    unsafe { START = start; LINES = 0; }
    assemble(src, AssembleOption::default()).ok()
}

const REGS: [&str; 15] = ["%rax", "%rcx", "%rdx", "%rbx", "%rsp", "%rbp", "%rsi", "%rdi", "%r8", "%r9", "%r10", "%r11", "%r12", "%r13", "%r14"];
const OPS: [&str; 4] = ["addq", "subq", "andq", "xorq"];
/// condition suffixes by function code
const CCS: [&str; 7] = ["", "le", "l", "e", "ne", "ge", "g"];

/// a source text with the bytes, line addresses, labels and label operands (all relative to its start) it stands for
struct Text { src: String, want: Vec<u8>, at: Vec<u64>, labels: Vec<(&'static str, u64)>, refs: Vec<(usize, u64)>, lines: Vec<String> }
impl Text {
    fn new() -> Text { Text { src: String::new(), want: vec![], at: vec![], labels: vec![], refs: vec![], lines: vec![] } }
    /// one line, with the terminator `end`
    fn ended(&mut self, parts: &[&str], end: &str, bytes: &[u8]) {
        self.lines.push(parts.concat());
        for p in parts { self.src.push_str(p); }
        self.src.push_str(end);
        self.at.push(self.want.len() as u64);
        self.want.extend_from_slice(bytes);
    }
    fn line(&mut self, parts: &[&str], bytes: &[u8]) { self.ended(parts, "\n", bytes) }
    /// a line without instruction, directive or label
    fn blank(&mut self, text: &str, end: &str) {
        self.lines.push(text.to_string());
        self.src.push_str(text);
        self.src.push_str(end);
        self.at.push(u64::MAX);
    }
    fn line_v(&mut self, parts: &[&str], head: &[u8], v: u64) {
        let mut b = head.to_vec();
        b.extend_from_slice(&v.to_le_bytes());
        self.line(parts, &b);
    }
    /// a line whose last eight bytes are the address of `label`
    fn line_l(&mut self, parts: &[&str], head: &[u8], label: &str) {
        self.line_v(parts, head, 0);
        let mut i = 0;
        while i < self.labels.len() {
            if self.labels[i].0 == label { self.refs.push((self.want.len() - 8, self.labels[i].1)); }
            i += 1;
        }
    }
    fn check(&self) {
        let start = any_u64();
        let n = self.want.len() as u64;
        let o = asm_at(start, &self.src);
        prove(o.is_some() == (start <= MEM - n), "well-formed text is accepted exactly if it fits in memory");
        cover(o.is_some(), "assembled");
        if let Some(o) = o {
            let mut i = 0;
            while i < self.at.len() {
                let l = o.source.get_line(i as i64 + 1);
                let want = if self.at[i] == u64::MAX { None } else { Some(start + self.at[i]) };
                prove(l.is_some_and(|l| l.addr == want), "every line starts where the one before it ends");
                prove(l.is_some_and(|l| l.src == self.lines[i]), "every line is listed with its source");
                i += 1;
            }
            // the end of the text may be listed as empty lines
            while let Some(l) = o.source.get_line(i as i64 + 1) {
                prove(l.addr.is_none() && l.inst.is_none() && l.data.is_none() && l.src.is_empty(), "every line is listed once");
                i += 1;
            }
            prove(o.obj.symbols.len() == self.labels.len(), "exactly the labels of the text are defined");
            i = 0;
            while i < self.labels.len() {
                let (l, a) = self.labels[i];
                prove(o.obj.symbols.get(l) == Some(&(start + a)), "a label is the address of what follows it");
                i += 1;
            }
            let m = Box::new(o.obj.init_mem());
            let mut r = 0;
            i = 0;
            while i < self.want.len() {
                if r < self.refs.len() && self.refs[r].0 == i {
                    let v = (start + self.refs[r].1).to_le_bytes();
                    let mut k = 0;
                    while k < 8 { prove(m[start as usize + i + k] == v[k], "a label operand is the address of the label"); k += 1; }
                    i += 8;
                    r += 1;
                } else {
                    prove(m[start as usize + i] == self.want[i], "every line assembles to the bytes of its instruction or datum");
                    i += 1;
                }
            }
            let k = any_u64();
            assume(k < MEM && k.wrapping_sub(start) >= n);
            prove(m[k as usize] == 0, "nothing else is written");
        }
        stop()
    }
}
/// every instruction with one register operand, with every register
fn one_reg() {
    let mut t = Text::new();
    let mut r = 0;
    while r < 15 {
        let n = r as u8;
        t.line(&["pushq ", REGS[r]], &[0xa0, n << 4 | 15]);
        t.line(&["popq ", REGS[r]], &[0xb0, n << 4 | 15]);
        t.line_v(&["irmovq $1, ", REGS[r]], &[0x30, 0xf0 | n], 1);
        let mut f = 0;
        while f < 4 {
            t.line_v(&["i", OPS[f], " $2, ", REGS[r]], &[0xc0 | f as u8, 0xf0 | n], 2);
            f += 1;
        }
        r += 1;
    }
    t.check()
}
/// every instruction with two register operands, with every register in both places
fn moves() {
    let mut t = Text::new();
    let mut r = 0;
    while r < 15 {
        let n = r as u8;
        t.line(&["rrmovq ", REGS[r], ", %rdx"], &[0x20, n << 4 | 2]);
        t.line(&["rrmovq %r10, ", REGS[r]], &[0x20, 0xa0 | n]);
        let mut c = 1;
        while c < 7 {
            t.line(&["cmov", CCS[c], " ", REGS[r], ", %rdi"], &[0x20 | c as u8, n << 4 | 7]);
            t.line(&["cmov", CCS[c], " %r9, ", REGS[r]], &[0x20 | c as u8, 0x90 | n]);
            c += 1;
        }
        r += 1;
    }
    t.check()
}
fn ops() {
    let mut t = Text::new();
    let mut r = 0;
    while r < 15 {
        let n = r as u8;
        let mut f = 0;
        while f < 4 {
            t.line(&[OPS[f], " ", REGS[r], ", %rbp"], &[0x60 | f as u8, n << 4 | 5]);
            t.line(&[OPS[f], " %r14, ", REGS[r]], &[0x60 | f as u8, 0xe0 | n]);
            f += 1;
        }
        r += 1;
    }
    t.check()
}
/// loads and stores, with every register as data and as base, with and without displacement
fn loads() {
    let mut t = Text::new();
    let mut r = 0;
    while r < 15 {
        let n = r as u8;
        t.line_v(&["mrmovq 8(", REGS[r], "), %rax"], &[0x50, n], 8);
        t.line_v(&["mrmovq (%rbx), ", REGS[r]], &[0x50, n << 4 | 3], 0);
        t.line_v(&["rmmovq ", REGS[r], ", 0x10(%rdx)"], &[0x40, n << 4 | 2], 16);
        t.line_v(&["rmmovq %rsi, (", REGS[r], ")"], &[0x40, 0x60 | n], 0);
        r += 1;
    }
    t.check()
}
/// instructions without register operands, and label operands (names that look like something else included)
fn labels() {
    let mut t = Text::new();
    t.labels = vec![("first", 0), ("le", 11), ("_x1", 11), ("addq", 66), ("halt", 150), ("Z", 150)];
    t.line(&["first: halt"], &[0x00]);
    t.line(&["nop"], &[0x10]);
    t.line_l(&["\tjmp first"], &[0x70], "first");
    t.line(&["le:"], &[]);
    t.line(&["_x1:  "], &[]);
    t.line_l(&["jle le"], &[0x71], "le");
    t.line_l(&["jl halt"], &[0x72], "halt");
    t.line_l(&["je le"], &[0x73], "le");
    t.line_l(&["jne halt"], &[0x74], "halt");
    t.line_l(&["jge Z"], &[0x75], "Z");
    t.line_l(&["isubq addq, %rcx"], &[0xc1, 0xf1], "addq");
    t.line(&["addq:"], &[]);
    t.line_l(&["jg addq"], &[0x76], "addq");
    t.line_l(&["call _x1"], &[0x80], "_x1");
    t.line(&["ret"], &[0x90]);
    t.line_l(&["iandq addq, %r8"], &[0xc2, 0xf8], "addq");
    t.line_l(&["iaddq halt, %r8"], &[0xc0, 0xf8], "halt");
    t.line_l(&["ixorq addq, %r8"], &[0xc3, 0xf8], "addq");
    t.line_l(&[".quad Z"], &[], "Z");
    t.line_l(&["jmp\tZ"], &[0x70], "Z");
    t.line_l(&["irmovq first,%r8"], &[0x30, 0xf8], "first");
    while (t.want.len() as u64) < 150 { t.line(&["nop"], &[0x10]); }
    t.line(&["halt:"], &[]);
    t.ended(&["Z:"], "", &[]);
    t.check()
}
/// number literals in every place a number may stand
fn numbers() {
    let mut t = Text::new();
    const N: [(&str, u64); 16] = [("0", 0), ("7", 7), ("-1", u64::MAX), ("00012", 12), ("9223372036854775807", i64::MAX as u64), ("-9223372036854775808", 1 << 63), ("0x0", 0), ("0xa", 10),
        ("0xFfFf", 0xffff), ("0x123456789abcdef0", 0x1234_5678_9abc_def0), ("0xFEDCBA9876543210", 0xfedc_ba98_7654_3210), ("-0x10", 0u64.wrapping_sub(16)), ("0xffffffffffffffff", u64::MAX), ("-0x8000000000000000", 1 << 63),
        ("0x00000000000000000001", 1), ("-0", 0)];
    let mut i = 0;
    while i < 16 {
        let (s, v) = N[i];
        let b = v.to_le_bytes();
        t.line_v(&["irmovq $", s, ", %rax"], &[0x30, 0xf0], v);
        t.line_v(&["isubq $", s, ", %rax"], &[0xc1, 0xf0], v);
        t.line_v(&["mrmovq ", s, "(%rax), %rcx"], &[0x50, 0x10], v);
        t.line_v(&["rmmovq %rax, ", s, "(%rcx)"], &[0x40, 0x01], v);
        t.line(&[".quad ", s], &b);
        t.line(&[".long ", s], &b[..4]);
        t.line(&[".word ", s], &b[..2]);
        t.line(&[".byte ", s], &b[..1]);
        i += 1;
    }
    t.check()
}
/// spacing, comments, line ends
fn forms() {
    let mut t = Text::new();
    t.labels = vec![("a", 0), ("b", 10), ("c", 12), ("d", 22), ("e", 24)];
    t.blank("", "\n");
    t.blank("# a comment: halt | x", "\n");
    t.blank("  \t", "\r\n");
    t.ended(&["a:irmovq $5,%rbx#c"], "\r\n", &[0x30, 0xf3, 5, 0, 0, 0, 0, 0, 0, 0]);
    t.ended(&["\t b:\t rrmovq\t%rax \t,\t %rbx \t # nop"], "\n", &[0x20, 0x03]);
    t.ended(&["c: # label"], "\r", &[]);
    t.ended(&["  mrmovq\t\t-8(%rbp) , %rax"], "\n", &[0x50, 0x05, 0xf8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
    t.blank("", "\n");
    t.line(&["d:", "xorq%rax,%rax"], &[0x63, 0x00]);
    t.line(&["e:\t\t"], &[]);
    t.line(&[" halt "], &[0]);
    t.line(&[".byte 1 # one"], &[1]);
    t.ended(&[" ret# end"], "", &[0x90]);
    t.check()
}
fn reject(src: &str) {
    let o = asm_at(any_u64(), src);
    prove(o.is_none(), "text that is not Y86 assembly, or names something undefined, is rejected");
}
/// not assembly (each a line of its own in otherwise correct text)
fn errors() {
    for s in ["hlt", "pushq", "pushq %rip", "pushq %eax", "pushq %r15", "pushq rax", "pushq %rax, %rbx", "addq %rax", "addq $1, %rax", "iaddq %rax, %rbx", "irmovq 5, %rax", "irmovq $, %rax", "irmovq $x, %rax",
        "irmovq $1 %rax", "irmovq $0x, %rax", "irmovq $0xg, %rax", "irmovq $1, rax", "rrmovq %rax %rbx", "cmov %rax, %rbx", "cmovz %rax, %rbx", "mrmovq 8(%rax, %rbx", "mrmovq %rax, 8(%rbx)", "rmmovq 8(%rbx), %rax",
        "jz x", "jmp 5", "jmp $5", "jmp", "call", "call %rax", "call 0x10", "ret x", "halt halt", "x: y: halt", "x : halt", "1x: halt", ".quad", ".quad $5", ".pos", ".pos x", ".align", ".align x", ".data 5", ".byte 1, 2",
        "nop ; halt", "// halt", "popq %rax %rbx", "isubq x %rax", "ADDQ %rax, %rbx"] {
        let mut t = String::from("x: nop\n");
        t.push_str(s);
        t.push_str("\nnop\n");
        reject(&t);
    }
    stop()
}
fn errors2() {
    for s in ["jmp undefined", "call xx", "irmovq X, %rax", "iaddq x_, %rax", ".quad y", ".byte y", "irmovq $9223372036854775808, %rax", "irmovq $-9223372036854775809, %rax", "irmovq $0x10000000000000000, %rax",
        "mrmovq 0x10000000000000000(%rax), %rax", "rmmovq %rax, 99999999999999999999(%rax)", ".quad 18446744073709551616", ".quad 0xfffffffffffffffff", ".pos 0x10000000000000000", ".pos 99999999999999999999", ".align 0x10000000000000000",
        ".align 0", ".align 3", ".align 12", ".align 0xffffffffffffffff", ".align -1"] {
        let mut t = String::from("x: nop\n");
        t.push_str(s);
        t.push_str("\nnop\n");
        reject(&t);
    }
    stop()
}
pub static HARNESSES: &[(&str, fn())] = &[("one_reg", one_reg), ("moves", moves), ("ops", ops), ("loads", loads), ("labels", labels), ("numbers", numbers), ("forms", forms), ("errors", errors), ("errors2", errors2)];
