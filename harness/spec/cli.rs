// C16: the command line tools yas and ysim (their source files as they are, with the command line, log
// setup, file system and the functions they call replaced by their contracts), and mem_diff.
use crate::asm::Imm;
use crate::framework::{CpuSim, MemData, PropOrder, StageInfo};
use crate::isa::{ConditionCode, RegFile};
use crate::object::{LineInfo, ObjectExt, BIN_SIZE};

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}

/// the world the tools run in
pub struct World {
    input: &'static str,
    output: Option<&'static str>,
    content: String,
    readable: bool,
    writable: bool,
    correct: bool,
    /// what assembling the content gives
    line: LineInfo,
    written: Option<(String, String)>,
    // ysim
    image: Box<[u8; MEMZ]>,
    arch: &'static str,
    max: u64,
    created: u64,
    count: u64,
    ended: bool,
    asked: u64,
    stepped: u64,
    shown: u64,
    mem: Option<MemData>,
}
static mut WORLD: Option<World> = None;
fn world() -> &'static mut World { unsafe { (*(&raw mut WORLD)).as_mut().unwrap() } }

fn object() -> ObjectExt {
    let w = world();
    let mut o = ObjectExt::default();
    let _ = w.line.write_object(&mut o.obj);
    o.source = vec![w.line.clone()].into();
    o
}
/// contract of assemble: the program the text denotes, or an error
fn assemble_contract(src: &str) -> anyhow::Result<ObjectExt> {
    let w = world();
    prove(w.readable && src == w.content, "the contents of the named file are assembled");
    if w.correct { Ok(object()) } else { Err(anyhow::anyhow!("incorrect")) }
}

mod tools {
    macro_rules! println { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
    macro_rules! print { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
    macro_rules! eprintln { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
    mod std {
        pub use ::std::*;
        pub mod fs {
            pub use ::std::fs::*;
            use super::super::super::{prove, world};
            pub fn read_to_string(name: impl AsRef<::std::path::Path>) -> ::std::io::Result<::std::string::String> {
                prove(name.as_ref().as_os_str() == world().input, "the named file is read");
                if world().readable { Ok(world().content.clone()) } else { Err(::std::io::ErrorKind::NotFound.into()) }
            }
            pub fn write(name: impl AsRef<::std::path::Path>, text: impl AsRef<[u8]>) -> ::std::io::Result<()> {
                prove(world().written.is_none(), "one file is written");
                world().written = Some((name.as_ref().to_str().unwrap().to_owned(), ::std::str::from_utf8(text.as_ref()).unwrap().to_owned()));
                if world().writable { Ok(()) } else { Err(::std::io::ErrorKind::PermissionDenied.into()) }
            }
        }
    }
    mod binutils {
        pub use ::binutils::*;
        pub fn logging_setup<T, U>(_: T, _: U) {}
        pub fn verbose_level_to_trace<T>(_: T) {}
    }
    mod y86_sim {
        pub use crate::*;
        pub fn assemble(src: &str, _: AssembleOption) -> anyhow::Result<ObjectExt> { super::super::assemble_contract(src) }
        pub mod utils {
            pub use crate::utils::*;
            pub fn mem_diff(left: &[u8; 1 << 16], right: &[u8; 1 << 16]) { super::super::super::diff_contract(left, right) }
        }
        pub mod architectures {
            pub use crate::architectures::*;
            pub fn create_sim(kind: String, memory: crate::framework::MemData, _: bool) -> Box<dyn crate::framework::CpuSim> {
                super::super::super::create_contract(kind, memory)
            }
        }
    }
    pub mod yas {
        use super::{binutils, std, y86_sim};
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/bin/yas.rs"));
        impl Args {
            fn parse() -> Args {
                let w = super::super::world();
                Args { input: w.input.to_string(), output: w.output.map(|x| x.to_string()), verbose: verbose::Verbosity::new(0, 0) }
            }
        }
        pub fn run() -> bool { main().is_ok() }
    }
    pub mod ysim {
        use super::{binutils, std, y86_sim};
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/bin/ysim.rs"));
        impl Args {
            fn parse() -> Args {
                let w = super::super::world();
                Args { input: Some(w.input.to_string()), info: false, arch: Some(w.arch.to_string()), max_cpu_cycle: Some(w.max), verbose: verbose::Verbosity::new(0, 0) }
            }
        }
        pub fn run() -> bool { main().is_ok() }
    }
}
/// utils.rs once more, with what it prints recorded, without terminal styles
mod printing {
    mod binutils {
        pub use ::binutils::*;
        pub mod clap {
            pub use ::binutils::clap::*;
            pub mod builder {
                pub use ::binutils::clap::builder::*;
                pub mod styling {
                    pub use ::binutils::clap::builder::styling::*;
                    #[derive(Clone, Copy)]
                    pub struct Style;
                    impl Style {
                        pub const fn new() -> Style { Style }
                        pub const fn bold(self) -> Style { self }
                        pub const fn underline(self) -> Style { self }
                        pub const fn fg_color(self, _: Option<Color>) -> Style { self }
                        pub const fn bg_color(self, _: Option<Color>) -> Style { self }
                    }
                    impl core::fmt::Display for Style { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
                }
            }
        }
    }
    mod std { pub use ::std::*; }
    macro_rules! print { ($($t:tt)*) => { super::out(&format!($($t)*)) } }
    macro_rules! println { () => { super::out("\n") }; ($($t:tt)*) => { { super::out(&format!($($t)*)); super::out("\n") } } }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/utils.rs"));
}
static mut OUT: String = String::new();
fn out(s: &str) { unsafe { (*(&raw mut OUT)).push_str(s) } }

fn new_world() -> &'static mut World {
    let (a, v) = (any_u64(), any_u64());
    assume(a >= 0x1000 && a <= MEM - 8);
    let w = World {
        input: "dir.1/prog.ys", output: None, content: String::new(), readable: true, writable: true, correct: true,
        line: LineInfo { addr: Some(a), inst: None, label: None, data: Some((8, Imm::Num(v as i64))), src: String::from("data") },
        written: None, image: Box::new([0; MEMZ]), arch: "", max: 0, created: 0, count: 0, ended: false, asked: 0, stepped: 0, shown: 0, mem: None,
    };
    unsafe { WORLD = Some(w) }
    let w = world();
    let mut i = 0;
    while i < 5 {
        let c = any_u8();
        assume(c < 128);
        w.content.push(c as char);
        i += 1;
    }
    w
}
fn yas() {
    let w = new_world();
    const IN: [(&str, Option<&str>, &str); 8] = [
        ("dir.1/prog.ys", None, "dir.1/prog.yo"), ("prog", None, "prog.yo"), ("dir.1/prog", None, "dir.1/prog.yo"), ("/a/b.c.ys", None, "/a/b.c.yo"), ("p.yo", None, "p.yo"),
        ("prog.ys", Some("out.txt"), "out.txt"), ("prog.ys", Some("d/out"), "d/out"), ("a.ys", Some("a.b.yo"), "a.b.yo")];
    let k = split(any_u64() & 7, 8) as usize;
    (w.input, w.output) = (IN[k].0, IN[k].1);
    (w.readable, w.writable, w.correct) = (split(any_u64() & 1, 2) == 0, split(any_u64() & 1, 2) == 0, split(any_u64() & 1, 2) == 0);
    let ok = tools::yas::run();
    let w = world();
    prove(ok == (w.readable && w.writable && w.correct), "success exactly if the file could be read, assembled and written");
    if w.readable && w.correct {
        let text = format!("{}", object());
        match &w.written {
            Some((name, t)) => {
                prove(name.as_str() == IN[k].2, "the listing goes to the named file");
                prove(*t == text, "the listing of the program is written");
                cover(true, "written");
            }
            None => prove(false, "the listing is written"),
        }
    } else {
        prove(w.written.is_none(), "nothing is written on errors");
        cover(true, "error");
    }
    stop()
}

/// contract of a simulator: any number of steps, each changing memory arbitrarily
struct Machine(MemData);
impl Machine {
    fn havoc(&self) {
        let mut m = self.0.write();
        any_mem(&mut m[..]);
    }
}
impl core::fmt::Display for Machine { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl CpuSim for Machine {
    fn initiate_next_cycle(&mut self) { prove(false, "the processor runs by whole steps") }
    fn propagate_signals(&mut self) { prove(false, "the processor runs by whole steps") }
    fn program_counter(&self) -> u64 { any_u64() }
    fn is_terminate(&self) -> bool {
        let w = world();
        if w.stepped == 0 {
            // the head of the loop is reached with any state that keeps its invariant
            if w.asked == 0 {
                self.havoc();
                w.count = any_u64();
                assume(w.count <= w.max);
                w.ended = split(any_u64() & 1, 2) == 1;
            }
            w.asked += 1;
        } else {
            prove(w.count <= w.max, "the cycle limit is respected");
            cover(true, "runs on");
            stop()
        }
        w.ended
    }
    fn cycle_count(&self) -> u64 { world().count }
    fn cycle_cost(&self) -> u64 { 1 }
    fn registers(&self) -> RegFile { [0; 16] }
    fn get_stage_info(&self) -> Vec<StageInfo> { vec![] }
    fn step(&mut self) {
        let w = world();
        prove(w.asked > 0 && !w.ended, "a program that has ended is not run further");
        prove(w.stepped == 0, "the end of the program is noticed");
        w.stepped += 1;
        self.havoc();
        w.count += 1;
        w.ended = split(any_u64() & 1, 2) == 1;
    }
    fn proporder(&self) -> &PropOrder { panic!() }
}
fn create_contract(kind: String, memory: MemData) -> Box<dyn CpuSim> {
    let w = world();
    prove(w.readable && w.correct, "nothing runs on errors");
    prove(kind == w.arch, "the named processor is simulated");
    prove(w.created == 0, "one processor is simulated");
    let k = any_u64();
    assume(k < MEM);
    let m = object().obj.init_mem();
    prove(memory.read()[k as usize] == m[k as usize], "the assembled program is in memory");
    w.created = 1;
    w.mem = Some(memory.clone());
    Box::new(Machine(memory))
}
fn diff_contract(left: &[u8; 1 << 16], right: &[u8; 1 << 16]) {
    let w = world();
    prove(w.created == 1 && w.asked > 0 && w.ended && w.stepped == 0, "memory is shown when the program has ended");
    prove(w.shown == 0, "memory is shown once");
    w.shown = 1;
    let k = any_u64();
    assume(k < MEM);
    let m = object().obj.init_mem();
    prove(left[k as usize] == m[k as usize], "the change is shown from the memory before");
    prove(right[k as usize] == w.mem.as_ref().unwrap().read()[k as usize], "the change is shown to the memory after");
}
fn ysim() {
    let w = new_world();
    const ARCH: [&str; 3] = ["seq_std", "seq_plus_std", "pipe_std"];
    w.arch = ARCH[split(any_u64() % 3, 3) as usize];
    w.max = any_u64();
    assume(w.max < u64::MAX);
    (w.readable, w.correct) = (split(any_u64() & 1, 2) == 0, split(any_u64() & 1, 2) == 0);
    let ok = tools::ysim::run();
    let w = world();
    prove(w.written.is_none(), "no file is written");
    if ok {
        prove(w.readable && w.correct, "errors are reported");
        prove(w.shown == 1, "success means the program has ended and memory was shown");
        cover(true, "ended");
    } else if w.readable && w.correct {
        prove(w.count > w.max && w.stepped == 1, "the run fails only at the cycle limit");
        prove(w.shown == 0, "memory is shown when the program has ended");
        cover(true, "limit");
    } else { cover(true, "error") }
    stop()
}
#[inline(never)]
fn hex(n: u8) -> u8 { if n < 10 { b'0' + n } else { b'a' - 10 + n } }
/// two words that differ or not, anywhere in otherwise equal memories
fn diff() {
    const AT: [usize; 5] = [0, 8, 0x1230, 0xfff0, 0xfff8];
    let k = split(any_u64() % 4, 4) as usize;
    let mut l = Box::new([0u8; MEMZ]);
    any_mem(&mut l[..]);
    let mut r = l.clone();
    let at = [AT[k], AT[k + 1]];
    let mut j = 0;
    let mut differ = [false; 2];
    while j < 2 {
        let v = any_u64();
        differ[j] = split(any_u64() & 1, 2) == 1;
        assume((ld8(&l, at[j] as u64) != v) == differ[j]);
        if differ[j] { st8(&mut r, at[j] as u64, v) }
        j += 1;
    }
    unsafe { (*(&raw mut OUT)).clear() }
    printing::mem_diff(&l, &r);
    let t = unsafe { (*(&raw const OUT)).as_bytes() };
    let mut p = 0;
    j = 0;
    while j < 2 {
        if differ[j] {
            let a = at[j] as u16;
            prove(t.len() >= p + 45, "every word that differs is shown");
            let want = [b'0', b'x', hex((a >> 12) as u8 & 15), hex((a >> 8) as u8 & 15), hex((a >> 4) as u8 & 15), hex(a as u8 & 15), b':', b' '];
            prove(t[p..p + 8] == want, "with its address");
            let mut i = 0;
            while i < 8 {
                prove(t[p + 8 + 2 * i] == hex(l[at[j] + i] >> 4) && t[p + 9 + 2 * i] == hex(l[at[j] + i] & 15), "its bytes before");
                prove(t[p + 28 + 2 * i] == hex(r[at[j] + i] >> 4) && t[p + 29 + 2 * i] == hex(r[at[j] + i] & 15), "its bytes after");
                i += 1;
            }
            prove(&t[p + 24..p + 28] == b" -> " && t[p + 44] == b'\n', "one word per line");
            p += 45;
            cover(true, "shown");
        } else { cover(true, "equal") }
        j += 1;
    }
    prove(t.len() == p, "no word that is equal is shown");
    stop()
}
pub static HARNESSES: &[(&str, fn())] = &[("yas", yas), ("ysim", ysim), ("diff", diff)];
