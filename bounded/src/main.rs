//! Bounded stand-in, used only when a proof could not be completed (or to look for a concrete
//! failing input): seeded differential runs of the public API against the specification.
//! `bounded KIND SEED SECONDS REPLAY_OUT`: exit 0 nothing found, 3 a failing input was written.
#![allow(dead_code)]
include!("../../harness/spec/common.rs");
mod stubs {
    #[no_mangle] pub extern "C-unwind" fn vc_any(_: u32) -> u64 { 0 }
    #[no_mangle] pub extern "C-unwind" fn vc_any_mem(_: *mut u8, _: usize) {}
    #[no_mangle] pub extern "C-unwind" fn vc_assume(_: bool) {}
    #[no_mangle] pub extern "C-unwind" fn vc_assert(_: bool, _: *const u8, _: usize) {}
    #[no_mangle] pub extern "C-unwind" fn vc_cover(_: bool, _: *const u8, _: usize) {}
    #[no_mangle] pub extern "C-unwind" fn vc_same(x: u64, _: u64) -> u64 { x }
    #[no_mangle] pub extern "C-unwind" fn vc_split(x: u64, _: u64) -> u64 { x }
    #[no_mangle] pub extern "C-unwind" fn vc_stop() -> ! { std::process::abort() }
}
use std::panic::{catch_unwind, AssertUnwindSafe};
use y86_sim::{architectures::create_sim, framework::MemData, isa};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 3 }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn value(&mut self) -> u64 {
        match self.below(9) {
            0 => self.below(20),
            1 => self.below(20).wrapping_neg(),
            2 => (1 << 63) + self.below(3),
            3 => (1 << 63) - 1 - self.below(3),
            4 => 65536 - self.below(20),
            5 => 0x8000 + self.below(64) * 8,
            _ => self.next() << 1 ^ self.next(),
        }
    }
}
const HALT_AT: u64 = 0x7000;
/// a random program: straight code with forward and backward jumps, calls, memory traffic in 0x8000.., and a
/// stack below 0xfff8
fn program(r: &mut Rng, iopq: bool, wild: bool) -> (Box<[u8; MEMZ]>, u64) {
    let mut m = Box::new([0u8; MEMZ]);
    let n = 3 + r.below(40);
    let mut starts = vec![];
    let mut code: Vec<(Vec<u8>, Option<usize>)> = vec![];
    let q = |v: &mut Vec<u8>, x: u64| v.extend_from_slice(&x.to_le_bytes());
    let mut push = |c: &mut Vec<(Vec<u8>, Option<usize>)>, b: Vec<u8>, t: Option<usize>| c.push((b, t));
    let mut v = vec![0x30, 0xf4]; q(&mut v, if wild && r.below(8) == 0 { r.value() } else { 0xff00 - r.below(32) * 8 }); push(&mut code, v, None);
    let mut v = vec![0x30, 0xf3]; q(&mut v, 0x8000 + r.below(64)); push(&mut code, v, None);
    for _ in 0..n {
        let reg = |r: &mut Rng| if r.below(12) == 0 { 4 } else if r.below(2) == 0 { r.below(4) as u8 } else { r.below(15) as u8 };
        let (a, b) = (reg(r), reg(r));
        let mut v = vec![];
        let mut t = None;
        match r.below(if iopq { 14 } else { 13 }) {
            0 => v.push(0x10),
            1 => { v.push(0x20 + r.below(7) as u8); v.push(a << 4 | b) }
            2 | 3 => { v.push(0x30); v.push(0xf0 | b); let x = r.value(); q(&mut v, x) }
            4 => { v.push(0x40); v.push(a << 4 | if r.below(6) == 0 && wild { b } else { 3 }); let x = r.below(32) * 8; q(&mut v, x) }
            5 | 6 => { v.push(0x50); v.push(a << 4 | if r.below(6) == 0 && wild { b } else { 3 }); let x = r.below(32) * 8; q(&mut v, x) }
            7 => { v.push(0x60 + r.below(4) as u8); v.push(a << 4 | b) }
            8 => { v.push(0x70 + r.below(7) as u8); t = Some(r.below(n + 2) as usize) }
            9 => { v.push(0x80); t = Some(r.below(n + 2) as usize) }
            10 => v.push(0x90),
            11 => { v.push(0xa0); v.push(a << 4 | 15) }
            12 => { v.push(0xb0); v.push(a << 4 | 15) }
            _ => { v.push(0xc0 + r.below(4) as u8); v.push(0xf0 | b); let x = r.value(); q(&mut v, x) }
        }
        push(&mut code, v, t);
    }
    // make rbx a data pointer again now and then is left to chance; end with halt
    code.push((vec![0x00], None));
    let mut pc = 0u64;
    for (b, t) in &code { starts.push(pc); pc += b.len() as u64 + if t.is_some() { 8 } else { 0 }; }
    let end = pc;
    let mut pc = 0usize;
    for (b, t) in &code {
        m[pc..pc + b.len()].copy_from_slice(b);
        pc += b.len();
        if let Some(t) = t {
            let x = if wild && r.below(40) == 0 { r.value() } else { starts[*t % starts.len()] };
            m[pc..pc + 8].copy_from_slice(&x.to_le_bytes());
            pc += 8;
        }
    }
    for i in 0..64u64 { let x = if r.below(3) == 0 { starts[r.below(starts.len() as u64) as usize] } else { r.value() }; let a = 0x8000 + i as usize * 8; m[a..a + 8].copy_from_slice(&x.to_le_bytes()); }
    for i in 0..40u64 { let x = starts[r.below(starts.len() as u64) as usize]; let a = 0xfe00 + i as usize * 8; m[a..a + 8].copy_from_slice(&x.to_le_bytes()); }
    let _ = HALT_AT;
    (m, end)
}
struct Run { s: Spec, end: u8, n: u64, unspecified: bool, selfmod: bool }
fn reference(m: &[u8; MEMZ], code_end: u64, iopq: bool, hw: bool, limit: u64) -> Option<Run> {
    let mut s = Spec { regs: [0; 16], sf: false, zf: false, of: false, pc: 0, mem: Box::new(*m) };
    let mut fetched = vec![false; MEMZ + 16];
    let (mut n, mut unspecified, mut selfmod) = (0, false, false);
    while n < limit {
        n += 1;
        if s.pc >= MEM || hw && s.pc > MEM - 10 { return Some(Run { s, end: st::ADR, n, unspecified, selfmod }); }
        let Some(d) = fetch(&s.mem, s.pc) else { return Some(Run { s, end: st::ADR, n, unspecified, selfmod }) };
        for i in 0..10 { fetched[s.pc as usize + i] = true; }
        if d.icode <= 12 && (!fields_ok(&d) || !operands_ok(&d)) && (iopq || d.icode < 12) { unspecified = true; return Some(Run { s, end: st::INS, n, unspecified, selfmod }); }
        let before = s.clone();
        let r = exec(&mut s, &d, iopq);
        if r != st::OK { return Some(Run { s: before, end: r, n, unspecified, selfmod }); }
        // writes into code (including what the pipeline may already have fetched)
        let w = match d.icode { 4 => Some(rget(&before.regs, d.rb).wrapping_add(d.valc)), 8 | 10 => Some(before.regs[4].wrapping_sub(8)), _ => None };
        if let Some(a) = w { if a < code_end + 64 || (a..a + 8).any(|x| fetched[x as usize]) { selfmod = true; } for x in a..a + 8 { if x < MEM { fetched[x as usize] = fetched[x as usize]; } } }
    }
    None
}
fn dump(m: &[u8; MEMZ]) -> String {
    let mut t = format!("m {MEMZ}");
    for (i, b) in m.iter().enumerate() { if *b != 0 { t.push_str(&format!(" {i}:{b}")); } }
    t
}
fn run_isa(m: &[u8; MEMZ], code_end: u64) -> Result<bool, String> {
    let Some(x) = reference(m, code_end, true, false, 3000) else { return Ok(false) };
    let mm = *m;
    let r = catch_unwind(AssertUnwindSafe(|| isa::simulate(mm, false))).map_err(|_| "isa::simulate panics".to_string())?;
    if x.unspecified { return Ok(false); }
    match (x.end, r) {
        (st::HLT, Ok(r)) => {
            if r.regs[..15] != x.s.regs[..15] { return Err(format!("registers {:x?} expected {:x?}", r.regs, x.s.regs)); }
            if (r.cc.sf, r.cc.zf, r.cc.of) != (x.s.sf, x.s.zf, x.s.of) { return Err("condition codes".into()); }
            if r.pc as u64 != x.s.pc { return Err("pc".into()); }
            if r.n_insts != x.n { return Err(format!("instruction count {} expected {}", r.n_insts, x.n)); }
            if r.bin[..] != x.s.mem[..] { return Err("memory".into()); }
        }
        (st::HLT, Err(_)) => return Err("error for a program that halts".into()),
        (_, Ok(_)) => return Err("no error for a program that faults".into()),
        _ => {}
    }
    Ok(true)
}
fn run_sim(kind: &str, m: &[u8; MEMZ], code_end: u64) -> Result<bool, String> {
    let Some(x) = reference(m, code_end, false, true, 1500) else { return Ok(false) };
    let pipe = kind.starts_with("pipe");
    if x.unspecified || x.selfmod && pipe { return Ok(false); }
    let mem = MemData::init(*m);
    let mm = mem.clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut c = create_sim(kind.to_string(), mm, false);
        let lim = if pipe { x.n * 5 + 20 } else { x.n + 1 };
        while !c.is_terminate() && c.cycle_count() < lim { c.step(); }
        (c.is_terminate(), c.cycle_count(), c.registers())
    })).map_err(|_| format!("{kind} panics"))?;
    if !r.0 { return Err(format!("{kind} does not stop")); }
    if !pipe && r.1 != x.n { return Err(format!("{kind} stopped after {} cycles, expected {}", r.1, x.n)); }
    if x.end == st::HLT {
        if r.2[..15] != x.s.regs[..15] { return Err(format!("{kind}: registers {:x?} expected {:x?}", r.2, x.s.regs)); }
        if mem.read()[..] != x.s.mem[..] { return Err(format!("{kind}: memory")); }
    }
    Ok(true)
}
mod more;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (kind, seed, secs, out) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].clone());
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { eprintln!("panicked at {}:{}", l.file(), l.line()) } }));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let t0 = std::time::Instant::now();
        let (mut runs, mut non) = (0u64, 0u64);
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
        for _ in 0..10 { r.next(); }
        while t0.elapsed().as_secs() < secs {
            runs += 1;
            let (res, txt): (Result<bool, String>, String) = match kind.as_str() {
                "isa" | "seq_std" | "seq_plus_std" | "pipe_std" => {
                    let wild = r.below(3) == 0;
                    let isa_ = kind == "isa";
                    let (mut m, end) = program(&mut r, isa_, wild);
                    if isa_ && r.below(8) == 0 { for i in 0..64 { if r.below(3) == 0 { m[i] = r.next() as u8 } } }
                    if isa_ && r.below(10) == 0 { let k = 65530 + r.below(6) as usize; m[k] = (r.below(16) << 4) as u8; m[0] = 0x70; m[1..9].copy_from_slice(&(k as u64).to_le_bytes()); }
                    let x = if isa_ { run_isa(&m, end) } else { run_sim(&kind, &m, end) };
                    let t = if x.is_err() { dump(&m) } else { String::new() };
                    (x, t)
                }
                k => more::case(k, &mut r),
            };
            match res {
                Ok(b) => non += b as u64,
                Err(e) => {
                    println!("{kind}: {e}");
                    let _ = std::fs::write(&out, format!("# differential run, kind {kind}\n# {e}\n{txt}\n"));
                    std::process::exit(3);
                }
            }
        }
        println!("{kind}: {runs} runs, {non} of them compared");
        std::process::exit(0);
    }).unwrap();
    let _ = h.join();
    std::process::exit(4);
}
