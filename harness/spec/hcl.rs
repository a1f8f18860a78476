// C10: what HCL definitions mean. A small circuit written in HCL (not one of the built-in processors) that uses every
// construct of the language, its definitions in an order unrelated to the data flow, is built by the real macros and
// run from an arbitrary state; every unit input and register input must have the value the definition denotes.
use crate::framework::{CpuSim, MemData, PipeSim};
use crate::isa::{ConditionCode, RegFile};
use crate::object::BIN_SIZE;

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}

pub mod toy_hw {
    use crate::framework::{HardwareUnits, MemData};
    use crate::isa::RegFile;
    pub use crate::isa::Stat;
    crate::define_units! {
        /// adds
        Adder add { .input(a: u64, b: u64, carry: bool) .output(s: u64, z: bool) } {
            *s = a.wrapping_add(b).wrapping_add(carry as u64);
            *z = *s == 0;
        }
        /// a unit with state, several outputs and none of its inputs named alike
        Counter cnt { .input(en: bool, k: u8) .output(old: u64, now: u64) n: u64 } {
            *old = *n;
            if en { *n = n.wrapping_add(k as u64); }
            *now = *n;
        }
        /// records what reaches it
        Probe pr { .input(p0: u64, p1: u64, p2: u64, q0: bool, q1: bool, q2: bool, q3: bool, q4: bool, q5: bool, q6: bool, r: u8, arr: [u8; 9]) .output() } {}
    }
    impl std::fmt::Display for Units {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    }
    impl HardwareUnits for Units {
        fn init(_: MemData) -> Self { Self { add: Adder {}, cnt: Counter { n: 0 }, pr: Probe {} } }
        fn register_file(&self) -> RegFile { let mut r = [0; 16]; r[0] = self.cnt.n; r }
    }
    impl Units { pub fn set(&mut self, n: u64) { self.cnt.n = n } }
}
pub mod toy {
    crate::define_stages! {
        In x { c: u8 = 1, d: u8 = 2, u: u64 = 3, v: u64 = 4, t: bool = false, f: bool = true, a: [u8; 9] = [0; 9] }
        Out y { w: u64 = 5, e: u8 = NOP, g: bool = true }
    }
    sim_macro::hcl! {
        #![hardware = crate::architectures::verif::toy_hw]
        #![program_counter = last]
        #![termination = done]
        #![stage_alias(X => x, Y => y)]

        :=====: First Part :=====:

        // used before it is defined; and-or precedence and negation
        bool done = late && !X.t || X.f && X.t;
        // destination list
        u64 last = [
            kind == 0 : add.s;
            kind in { HALT, NOP, RET } : X.u;
            !X.t && late : Y.w;
            X.c != X.d : 0x1234;
            1 : sum2;
        ] -> (pr.p0, y.w);
        bool late = X.c in { X.d, RRMOVE } || Y.g;
        u8 RRMOVE = 7;

        :=: "Second" part :=:

        u64 sum2 = cnt.now;
        @set_input(add, { a: opa, b: opb, carry: cin });
        bool cin = [
            #[tunnel(one)]
            X.t : true;
            #[tunnel(two)]
            1 : X.f;
        ] -> (#[tunnel(three)] pr.q0, pr.q1);
        u64 opa = [
            X.t && X.f : X.v;
            X.t || X.f : X.u;
            true : 0xffff_ffff_ffff_fffe;
        ];
        u64 opb = [ (X.c == X.d) == X.t : Y.w; 1 : X.v; ];
        bool cen = add.z != X.t -> cnt.en;
        u8 kind = [ X.t == (X.f != X.t) : X.c; !(X.c in { X.d }) : X.d; 1 : 3; ];
        @set_input(cnt, { k: kind });
        u64 prev = cnt.old -> pr.p1;
        u64 p2 = add.s -> pr.p2;
        bool b2 = X.t || X.f && Y.g -> pr.q2;
        bool b3 = (X.t || X.f) && Y.g -> pr.q3;
        bool b4 = !X.t == X.f && !(X.f && Y.g) -> pr.q4;
        bool b5 = X.c in { HALT, IRMOVQ, ADD } || !late && X.f != Y.g -> pr.q5;
        bool b6 = false -> (pr.q6);
        u8 r2 = kind -> (pr.r, y.e);
        [u8; 9] bytes = X.a -> pr.arr;
        bool g2 = done;
        @set_stage(y, { g: g2 });
        bool hold = X.t && late;
        bool clear = !X.t && late;
        @set_stage(x, { stall: hold, bubble: clear });
    }
    impl crate::framework::PipeSim<Arch> {
        pub fn print_state(&self) {}
    }
}

fn toy_step() {
    use toy::{Arch, PipeRegs};
    let mut sim = Box::new(PipeSim::<Arch>::new(MemData::init([0u8; MEMZ]), false));
    // whatever earlier cycles left on the wires
    raw_any(&mut sim.cur_unit_out);
    raw_any(&mut sim.cur_unit_in);
    raw_any(&mut sim.cur_inter);
    let n0 = any_u64();
    sim.units.set(n0);
    let s = &mut sim.cur_state;
    s.x.c = any_u8();
    s.x.d = any_u8();
    s.x.u = any_u64();
    s.x.v = any_u64();
    s.x.t = any_bool();
    s.x.f = any_bool();
    any_mem(&mut s.x.a);
    s.y.w = any_u64();
    s.y.e = any_u8();
    s.y.g = any_bool();
    let pre = Box::new(s.clone());
    sim.step();
    // the meaning of the definitions, in data-flow order
    let (x, y) = (&pre.x, &pre.y);
    let (t, f) = (x.t, x.f);
    let late = x.c == x.d || x.c == 7 || y.g;
    let done = (late && !t) || (f && t);
    let kind = if t == (f != t) { x.c } else if x.c != x.d { x.d } else { 3 };
    let cin = if t { true } else { f };
    let opa = if t && f { x.v } else if t || f { x.u } else { u64::MAX - 1 };
    let opb = if (x.c == x.d) == t { y.w } else { x.v };
    let sum = opa.wrapping_add(opb).wrapping_add(cin as u64);
    let en = (sum == 0) != t;
    let now = if en { n0.wrapping_add(kind as u64) } else { n0 };
    let last = if kind == 0 { sum } else if kind == 0 || kind == 1 || kind == 9 { x.u } else if !t && late { y.w } else if x.c != x.d { 0x1234 } else { now };
    let i = &sim.cur_unit_in;
    prove(i.add.a == opa && i.add.b == opb && i.add.carry == cin, "a switch takes the value of its first true case");
    prove(i.cnt.en == en && i.cnt.k == kind, "signals reach the unit inputs they are wired to");
    prove(i.pr.p0 == last && i.pr.p1 == n0 && i.pr.p2 == sum, "unit outputs are those of this cycle");
    prove(i.pr.q0 == cin && i.pr.q1 == cin, "one signal may feed several inputs");
    prove(i.pr.q2 == (t || (f && y.g)), "&& binds tighter than ||");
    prove(i.pr.q3 == ((t || f) && y.g), "parentheses");
    prove(i.pr.q4 == ((!t == f) && !(f && y.g)), "negation and comparison");
    prove(i.pr.q5 == (x.c == 0 || x.c == 3 || (!late && f != y.g)), "membership");
    prove(!i.pr.q6, "constants");
    prove(i.pr.r == kind, "kind");
    let mut k = 0;
    while k < 9 { prove(i.pr.arr[k] == x.a[k], "array signals"); k += 1; }
    let n = &sim.nex_state;
    prove(n.y.w == last && n.y.e == kind && n.y.g == done, "signals reach the register inputs they are wired to");
    prove(n.x.stall == (t && late) && n.x.bubble == (!t && late), "stall and bubble are register inputs");
    prove(sim.program_counter() == last, "the program counter is the declared signal");
    prove(sim.is_terminate() == done, "the termination signal ends the simulation");
    prove(sim.registers()[0] == now, "units run once in a cycle");
    let d = PipeRegs::default();
    if !done {
        let c = &sim.cur_state;
        let wx = if !t && late { &d.x } else if t && late { &pre.x } else { n_x(n) };
        prove(c.x.c == wx.c && c.x.u == wx.u && c.x.t == wx.t, "stall and bubble act on their own register");
        prove(c.y.w == last && c.y.e == kind && c.y.g == done, "register inputs are latched");
    }
    cover(done, "terminates");
    cover(!done, "goes on");
    stop();
}
fn n_x(n: &toy::PipeRegs) -> &toy::unit_stage::In { &n.x }
pub static HARNESSES: &[(&str, fn())] = &[("toy_step", toy_step)];
