// C17: the debugger (debugger/src/server.rs as it is, talking to a recorded client, with the file system,
// the assembler and the simulator replaced by their contracts).
use ::dap_real::events::{Event, StoppedEventBody};
use ::dap_real::requests::*;
use ::dap_real::responses::{Response, ResponseBody};
use ::dap_real::types;
use ::y86_sim::framework::{CpuSim, MemData, PropOrder, StageInfo};
use ::y86_sim::isa::RegFile;

mod imports {
    pub mod std {
        pub use ::std::*;
        pub mod fs {
            pub use ::std::fs::*;
            pub fn read_to_string(name: impl AsRef<::std::path::Path>) -> ::std::io::Result<::std::string::String> {
                super::super::super::prove(name.as_ref().as_os_str() == super::super::super::FILE, "the named program is read");
                if super::super::super::world().readable { Ok(::std::string::String::from("text")) } else { Err(::std::io::ErrorKind::NotFound.into()) }
            }
        }
    }
    pub mod dap {
        pub use ::dap_real::*;
        pub mod server {
            use ::dap_real::{errors::ServerError, events::Event, requests::Request, responses::Response};
            use ::std::io::{BufReader, BufWriter, Read, Write};
            /// the client at the other end
            pub struct Server<R: Read, W: Write>(::std::marker::PhantomData<(R, W)>);
            impl<R: Read, W: Write> Server<R, W> {
                pub fn new(_: BufReader<R>, _: BufWriter<W>) -> Self { Server(::std::marker::PhantomData) }
                pub fn poll_request(&mut self) -> Result<Option<Request>, ServerError> { Ok(Some(super::super::super::poll())) }
                pub fn respond(&mut self, response: Response) -> Result<(), ServerError> { super::super::super::respond(response); Ok(()) }
                pub fn send_event(&mut self, event: Event) -> Result<(), ServerError> { super::super::super::event(event); Ok(()) }
            }
        }
        pub mod prelude {
            pub use super::server::Server;
            pub use ::dap_real::{events::{self, Event}, requests::{self, Command, Request}, responses::{self, Response, ResponseBody}, reverse_requests::{ReverseCommand, ReverseRequest}, types};
        }
    }
    pub mod y86_sim {
        pub use ::y86_sim::*;
        pub fn assemble(src: &str, _: AssembleOption) -> ::anyhow::Result<ObjectExt> { super::super::assemble_contract(src) }
        pub mod architectures {
            pub use ::y86_sim::architectures::*;
            pub fn create_sim(kind: String, memory: ::y86_sim::framework::MemData, _: bool) -> Box<dyn ::y86_sim::framework::CpuSim> {
                super::super::super::create_contract(kind, memory)
            }
        }
    }
}
mod server {
    use super::imports::{dap, std, y86_sim};
    include!(concat!(env!("Y86_REPO"), "/debugger/src/server.rs"));
}
use crate::SimOption;

const FILE: &str = "dir/prog.ys";
const ARCH: &str = "pipe_std";
/// lines of the program: nothing, a label, the instruction behind it, another instruction
const LINES: usize = 4;

#[derive(Clone, Copy, PartialEq)]
enum Run { No, Entry, Continue, Next }

pub struct World {
    script: fn(u64) -> Option<Command>,
    check: fn(u64, &Response),
    at: u64,
    /// the request not yet answered
    open: bool,
    seq: i64,
    readable: bool,
    correct: bool,
    addr: [Option<u64>; LINES],
    // breakpoints: requested lines and the ids given to them
    asked: [i64; 3],
    ids: [Option<i64>; 3],
    lines: [Option<i64>; 3],
    first: usize,
    count: usize,
    // program
    run: Run,
    stops: u64,
    max: u64,
    fresh: bool,
    pc: u64,
    ended: bool,
    cycles: u64,
    half: bool,
    done: u64,
    tag: u8,
    regs: [u64; 16],
    // requests with arbitrary numbers
    num: i64,
    reason: u8,
}
static mut WORLD: Option<World> = None;
pub fn world() -> &'static mut World { unsafe { (*(&raw mut WORLD)).as_mut().unwrap() } }

fn any_addr() -> u64 {
    let a = any_u64();
    assume(a >= 0x1000 && a < MEM);
    a
}
fn new_world(script: fn(u64) -> Option<Command>, check: fn(u64, &Response)) -> &'static mut World {
    let (a, b) = (any_addr(), any_addr());
    let w = World {
        script, check, at: 0, open: false, seq: 0, readable: true, correct: true, addr: [None, Some(a), Some(a), Some(b)],
        asked: [0; 3], ids: [None; 3], lines: [None; 3], first: 0, count: 0,
        run: Run::No, stops: 0, max: 0, fresh: true, pc: 0, ended: false, cycles: 0, half: false, done: 0, tag: b'a', regs: [0; 16], num: 0, reason: 0,
    };
    unsafe { WORLD = Some(w) }
    world()
}
/// contract of the assembler: the address of every line
fn assemble_contract(src: &str) -> ::anyhow::Result<::y86_sim::ObjectExt> {
    let w = world();
    prove(w.readable && src == "text", "the named program is assembled");
    if !w.correct { return Err(::anyhow::anyhow!("incorrect")); }
    let mut o = ::y86_sim::assemble("\n", ::y86_sim::AssembleOption::default())?;
    let l = o.source.get_line(1).cloned().unwrap();
    let mut v = vec![l; LINES];
    let mut i = 0;
    while i < LINES { v[i].addr = w.addr[i]; i += 1; }
    o.source = v.into();
    Ok(o)
}
/// contract of a simulator: a cycle is begun, then finished, and changes everything
struct Machine;
impl Machine {
    fn havoc(&self) {
        let w = world();
        w.pc = any_addr();
        w.ended = split(any_u64() & 1, 2) == 1;
        w.tag = b'a' + (any_u8() & 15);
        // two registers hold arbitrary values (of 16 digits)
        let mut i = 0;
        while i < 2 {
            let v = any_u64();
            assume(v >> 60 != 0);
            w.regs[[4, 14][i]] = v;
            i += 1;
        }
    }
}
impl core::fmt::Display for Machine { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl CpuSim for Machine {
    fn initiate_next_cycle(&mut self) {
        let w = world();
        prove(w.run == Run::Continue || w.run == Run::Next, "the program only runs when it is told to");
        prove(w.stops == 0, "a stopped program does not run on");
        prove(!w.half, "cycles are begun one after the other");
        prove(!w.ended, "a program that has ended is not run further");
        prove(w.done == 0, "a program that should stop does not run on");
        w.half = true;
    }
    fn propagate_signals(&mut self) {
        let w = world();
        prove(w.half, "a cycle is begun before it is finished");
        w.half = false;
        w.done += 1;
        w.cycles += 1;
        self.havoc();
    }
    fn program_counter(&self) -> u64 { world().pc }
    fn is_terminate(&self) -> bool {
        let w = world();
        if w.done > 0 && w.run == Run::Continue && w.stops == 0 && !w.ended {
            // around the loop: whatever state follows is covered by the state it started from
            prove(!at_breakpoint(), "the program stops at a breakpoint");
            prove(w.cycles < w.max, "the program stops at the cycle limit");
            cover(true, "runs on");
            stop()
        }
        w.ended
    }
    fn cycle_count(&self) -> u64 { world().cycles }
    fn cycle_cost(&self) -> u64 { 1 }
    fn registers(&self) -> RegFile { world().regs }
    fn get_stage_info(&self) -> Vec<StageInfo> {
        let s = |c: u8| String::from((world().tag ^ c) as char);
        vec![
            StageInfo { name: "one", signals: vec![(String::from("x"), s(0)), (String::from("y"), s(1))] },
            StageInfo { name: "two", signals: vec![(String::from("z"), s(2))] },
        ]
    }
    fn step(&mut self) { self.initiate_next_cycle(); self.propagate_signals() }
    fn proporder(&self) -> &PropOrder { panic!() }
}
fn create_contract(kind: String, memory: MemData) -> Box<dyn CpuSim> {
    let w = world();
    prove(w.readable && w.correct, "only correct programs are run");
    prove(kind == ARCH, "the named processor is simulated");
    let k = any_u64();
    assume(k < MEM);
    prove(memory.read()[k as usize] == 0, "the assembled program is in memory");
    Box::new(Machine)
}
/// address of a line of the program
fn addr(line: i64) -> Option<u64> { if line >= 1 && line <= LINES as i64 { world().addr[line as usize - 1] } else { None } }
/// the last breakpoints set that are at the current position
fn at_breakpoint() -> bool {
    let w = world();
    let (mut i, mut r) = (w.first, false);
    while i < w.first + w.count { if addr(w.asked[i]) == Some(w.pc) { r = true } i += 1; }
    r
}

pub fn poll() -> Request {
    let w = world();
    prove(!w.open, "every request is answered");
    if w.run != Run::No { prove(w.stops == 1, "the client is told once that the program has stopped"); }
    w.run = Run::No;
    w.stops = 0;
    let Some(command) = (w.script)(w.at) else { cover(true, "session"); stop() };
    w.at += 1;
    w.seq = any_u64() as i64;
    w.open = true;
    Request { seq: w.seq, command }
}
pub fn respond(r: Response) {
    let w = world();
    prove(w.open, "only requests are answered");
    prove(r.request_seq == w.seq, "the answer names its request");
    prove(r.success == r.body.is_some() && r.success == r.message.is_none(), "an answer is a result or an error");
    w.open = false;
    match r.body {
        Some(ResponseBody::ConfigurationDone) => w.run = Run::Entry,
        Some(ResponseBody::Continue(_)) => start(Run::Continue),
        Some(ResponseBody::Next) => start(Run::Next),
        _ => {}
    }
    (w.check)(w.at - 1, &r);
}
/// the program runs from an arbitrary state
fn start(r: Run) {
    let w = world();
    w.run = r;
    w.done = 0;
    w.cycles = any_u64();
    assume(w.cycles >= 1000 && w.cycles < 9999);
    Machine.havoc();
}
pub fn event(e: Event) {
    let w = world();
    match e {
        Event::Initialized => prove(w.at == 1 && !w.open, "the client is told once that the debugger is ready"),
        Event::Stopped(StoppedEventBody { reason, thread_id, hit_breakpoint_ids, .. }) => {
            prove(!w.open && w.run != Run::No && w.stops == 0, "the client is told once that the program has stopped");
            prove(thread_id == Some(1), "the program is the one thread");
            prove(!w.half, "the program stops between cycles");
            w.stops += 1;
            let bp = matches!(reason, types::StoppedEventReason::Breakpoint);
            match w.run {
                Run::Entry => prove(matches!(reason, types::StoppedEventReason::Entry) && w.done == 0, "the program waits at its entry"),
                _ => {
                    prove(w.done == 1 || w.done == 0 && w.ended, "the program runs one cycle unless it has ended");
                    prove(bp == (w.done == 1 && at_breakpoint()), "a stop at a breakpoint is reported as such");
                    if w.run == Run::Continue && w.done == 1 && !bp {
                        prove(w.ended || w.cycles >= w.max, "the program stops at a breakpoint, at its end or at the cycle limit only");
                    }
                    if w.run == Run::Next { cover(w.done == 1 && !bp, "stepped") }
                    if w.count > 0 { cover(bp, "breakpoint") }
                    cover(w.done == 0, "ended");
                    cover(w.done == 1 && !bp && w.cycles >= w.max, "limit");
                }
            }
            if bp {
                let mut good = false;
                if let Some(v) = &hit_breakpoint_ids {
                    let mut i = w.first;
                    while i < w.first + w.count { if v.len() == 1 && addr(w.asked[i]) == Some(w.pc) && w.ids[i] == Some(v[0]) { good = true } i += 1; }
                }
                prove(good, "the breakpoint reached is named");
            } else { prove(hit_breakpoint_ids.is_none(), "the breakpoint reached is named"); }
        }
        _ => {}
    }
}

fn initialize() -> Option<Command> { Some(Command::Initialize(InitializeArguments::default())) }
fn launch() -> Option<Command> {
    let mut m = ::serde_json::Map::new();
    m.insert(String::from("program"), ::serde_json::Value::String(String::from(FILE)));
    Some(Command::Launch(LaunchRequestArguments { additional_data: Some(::serde_json::Value::Object(m)), ..Default::default() }))
}
fn set(file: &str, first: usize, count: usize) -> Option<Command> {
    let w = world();
    let bp = (first..first + count).map(|i| types::SourceBreakpoint { line: w.asked[i], ..Default::default() }).collect();
    Some(Command::SetBreakpoints(SetBreakpointsArguments { source: types::Source { path: Some(String::from(file)), ..Default::default() }, breakpoints: Some(bp), ..Default::default() }))
}
fn check_set(r: &Response, first: usize, count: usize) {
    let w = world();
    let Some(ResponseBody::SetBreakpoints(b)) = &r.body else { prove(false, "breakpoints are accepted"); return };
    prove(b.breakpoints.len() == count, "every breakpoint is answered, in order");
    (w.first, w.count) = (first, count);
    let mut i = 0;
    while i < count {
        let (x, l) = (&b.breakpoints[i], w.asked[first + i]);
        prove(x.verified == addr(l).is_some(), "breakpoints are verified on the lines that have an address");
        if x.verified {
            prove(x.line == Some(l), "a breakpoint is set on its line");
            prove(x.id.is_some(), "a breakpoint has an id");
            prove(x.source.as_ref().is_some_and(|s| s.path.as_deref() == Some(FILE)), "a breakpoint is set in its file");
        }
        w.ids[first + i] = x.id;
        i += 1;
    }
}
fn go() {
    let w = world();
    let input: &[u8] = &[];
    let o = SimOption { arch: String::from(ARCH), max_cpu_cycle: w.max };
    let _ = server::DebugServer::new(input, Vec::new(), o).start();
    prove(false, "the session goes on");
    stop()
}
/// lines of a breakpoint: any of the program, and others
fn any_line() -> i64 {
    const L: [i64; 9] = [1, 2, 3, 4, 0, -1, 5, i64::MIN, i64::MAX];
    L[split(any_u64() % 9, 9) as usize]
}
fn ok(_: u64, r: &Response) { prove(r.success, "the request succeeds") }

fn breakpoints() {
    fn script(n: u64) -> Option<Command> {
        match n { 0 => initialize(), 1 => launch(), 2 => set(FILE, 0, 2), 3 => set("other.ys", 0, 1), 4 => set(FILE, 2, 1), _ => None }
    }
    fn check(n: u64, r: &Response) {
        match n { 2 => check_set(r, 0, 2), 3 => prove(!r.success, "breakpoints in other files are refused"), 4 => check_set(r, 2, 1), _ => ok(n, r) }
    }
    let w = new_world(script, check);
    w.asked = [any_line(), any_line(), any_line()];
    go()
}
fn run() {
    fn script(n: u64) -> Option<Command> {
        match n {
            0 => initialize(), 1 => launch(), 2 => set(FILE, 0, 1), 3 => set(FILE, 1, 2), 4 => Some(Command::ConfigurationDone),
            5 => Some(if world().num == 0 { Command::Continue(ContinueArguments { thread_id: 1, ..Default::default() }) } else { Command::Next(NextArguments { thread_id: 1, ..Default::default() }) }),
            _ => None,
        }
    }
    fn check(n: u64, r: &Response) {
        match n { 2 => check_set(r, 0, 1), 3 => check_set(r, 1, 2), _ => ok(n, r) }
    }
    let w = new_world(script, check);
    const L: [i64; 4] = [1, 3, 4, 9];
    w.asked = [2 + (split(any_u64() & 1, 2) as i64) * 2, L[split(any_u64() & 3, 4) as usize], L[split(any_u64() & 3, 4) as usize]];
    w.num = split(any_u64() & 1, 2) as i64;
    w.max = any_u64();
    go()
}
#[inline(never)]
fn hex(n: u8) -> u8 { if n < 10 { b'0' + n } else { b'a' - 10 + n } }
/// what a stopped program shows
fn inspect() {
    fn script(n: u64) -> Option<Command> {
        Some(match n {
            0 => return initialize(), 1 => return launch(), 2 => Command::ConfigurationDone,
            3 => Command::Next(NextArguments { thread_id: 1, ..Default::default() }),
            4 => Command::Threads,
            5 => Command::StackTrace(StackTraceArguments { thread_id: 1, ..Default::default() }),
            6 => Command::Scopes(ScopesArguments { frame_id: world().num }),
            7..=9 => Command::Variables(VariablesArguments { variables_reference: world().ids[n as usize - 7].unwrap(), ..Default::default() }),
            _ => return None,
        })
    }
    fn check(n: u64, r: &Response) {
        let w = world();
        ok(n, r);
        match &r.body {
            Some(ResponseBody::Threads(t)) => prove(t.threads.len() == 1 && t.threads[0].id == 1, "the program is the one thread"),
            Some(ResponseBody::StackTrace(s)) => {
                prove(s.stack_frames.len() == 1, "there is one frame");
                let f = &s.stack_frames[0];
                w.num = f.id;
                prove(f.source.as_ref().is_some_and(|s| s.path.as_deref() == Some(FILE)), "the frame is in the program");
                let known = w.addr[1] == Some(w.pc) || w.addr[3] == Some(w.pc);
                prove(if known { addr(f.line) == Some(w.pc) } else { f.line == 0 }, "the frame shows the line of the current position");
                cover(known, "line");
                cover(!known, "no line");
            }
            Some(ResponseBody::Scopes(s)) => {
                prove(s.scopes.len() == 3, "there is a scope for the registers and for every stage");
                const NAMES: [&str; 3] = ["Registers", "one", "two"];
                let mut i = 0;
                while i < 3 {
                    let x = &s.scopes[i];
                    prove(x.name == NAMES[i], "scopes have their names");
                    prove(x.source.as_ref().is_some_and(|s| s.path.as_deref() == Some(FILE)), "scopes are in the program");
                    w.ids[i] = Some(x.variables_reference);
                    i += 1;
                }
            }
            Some(ResponseBody::Variables(v)) => {
                let v = &v.variables;
                match n {
                    7 => {
                        const NAMES: [&str; 15] = ["RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI", "R8", "R9", "R10", "R11", "R12", "R13", "R14"];
                        prove(v.len() >= 15, "every register is shown");
                        let mut i = 0;
                        while i < 15 {
                            prove(v[i].name == NAMES[i], "registers have their names");
                            let t = v[i].value.as_bytes();
                            if i == 4 || i == 14 {
                                prove(t.len() == 18 && t[0] == b'0' && t[1] == b'x', "registers show their values");
                                let mut k = 0;
                                while k < 16 { prove(t[2 + k] == hex((w.regs[i] >> (60 - 4 * k)) as u8 & 15), "registers show their values"); k += 1; }
                            } else { prove(t == b"0x0", "registers show their values") }
                            i += 1;
                        }
                    }
                    8 => {
                        prove(v.len() == 2 && v[0].name == "x" && v[1].name == "y", "every signal of the stage is shown");
                        prove(v[0].value.as_bytes() == [w.tag] && v[1].value.as_bytes() == [w.tag ^ 1], "signals show their values of this cycle");
                    }
                    _ => {
                        prove(v.len() == 1 && v[0].name == "z", "every signal of the stage is shown");
                        prove(v[0].value.as_bytes() == [w.tag ^ 2], "signals show their values of this cycle");
                        cover(true, "shown");
                    }
                }
            }
            _ => {}
        }
    }
    new_world(script, check);
    go()
}
/// requests that cannot be served are answered by an error, and the session goes on
fn errors() {
    fn script(n: u64) -> Option<Command> {
        let w = world();
        let file = types::Source { path: Some(String::from(FILE)), ..Default::default() };
        Some(match n {
            0 => return initialize(),
            1 => match w.reason {
                // before the program is known
                0 => return set(FILE, 0, 1),
                1 => Command::StackTrace(StackTraceArguments { thread_id: 1, ..Default::default() }),
                2 => Command::Scopes(ScopesArguments { frame_id: 1 }),
                3 => Command::Variables(VariablesArguments { variables_reference: 1, ..Default::default() }),
                4 => Command::Launch(LaunchRequestArguments::default()),
                5 => Command::Launch(LaunchRequestArguments { additional_data: Some(::serde_json::Value::Null), ..Default::default() }),
                6 => { w.readable = false; return launch() }
                7 => { w.correct = false; return launch() }
                _ => Command::Attach(AttachRequestArguments { ..Default::default() }),
            },
            2 => { w.readable = true; w.correct = true; return launch() }
            3 => match w.num & 7 {
                0 => Command::SetBreakpoints(SetBreakpointsArguments { source: file, ..Default::default() }),
                1 => Command::SetBreakpoints(SetBreakpointsArguments::default()),
                2 => Command::StackTrace(StackTraceArguments { thread_id: other(&[1]), ..Default::default() }),
                3 => Command::Scopes(ScopesArguments { frame_id: other(&[1]) }),
                4 => Command::Variables(VariablesArguments { variables_reference: other(&[1, 2, 3]), ..Default::default() }),
                5 => Command::Next(NextArguments { thread_id: other(&[1]), ..Default::default() }),
                6 => Command::Continue(ContinueArguments { thread_id: other(&[1]), ..Default::default() }),
                _ => Command::Pause(PauseArguments { thread_id: 1 }),
            },
            4 => Command::Threads,
            _ => return None,
        })
    }
    fn other(v: &[i64]) -> i64 {
        let x = any_u64() as i64;
        for y in v { assume(x != *y); }
        x
    }
    fn check(n: u64, r: &Response) {
        match n {
            1 | 3 => prove(!r.success, "what cannot be served is refused"),
            _ => ok(n, r),
        }
        prove(world().run == Run::No, "the program only runs when it is told to");
    }
    let w = new_world(script, check);
    w.asked = [3, 3, 3];
    w.reason = split(any_u64() % 9, 9) as u8;
    w.num = split(any_u64() & 7, 8) as i64;
    go()
}
pub static HARNESSES: &[(&str, fn())] = &[("breakpoints", breakpoints), ("run", run), ("inspect", inspect), ("errors", errors)];
