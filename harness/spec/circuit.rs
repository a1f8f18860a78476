// C09: evaluation of the combinational logic: the propagation order of a circuit and the signals at the
// end of a cycle.
use crate::framework::{CpuArch, CpuSim, HardwareUnits, MemData, PipeSim, PropOrder, PropOrderBuilder};
use crate::isa::{ConditionCode, RegFile, Stat};
use crate::object::BIN_SIZE;

extern "C-unwind" { fn vc_panics_ok(x: u64); }

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}
fn any_stat() -> Stat {
    match any_u8() & 7 { 0 => Stat::Aok, 1 => Stat::Bub, 2 => Stat::Hlt, 3 => Stat::Adr, _ => Stat::Ins }
}
#[inline(always)]
fn snap<T: Default>(x: &T) -> Box<T> {
    let mut b = Box::new(T::default());
    unsafe { core::ptr::copy_nonoverlapping(x, &mut *b, 1) };
    b
}
/// every byte is the same
#[inline(always)]
fn same_bytes<T>(a: &T, b: &T, what: &'static str) {
    let mut k = 0;
    while k < core::mem::size_of::<T>() {
        prove(unsafe { *(a as *const T as *const u8).add(k) == *(b as *const T as *const u8).add(k) }, what);
        k += 1;
    }
}

// ---- the order of a circuit, from its dependency edges --------------------------------------------
fn pos(o: &PropOrder, n: &str) -> usize {
    let mut i = 0;
    while i < o.order.len() { if o.order[i].name == n { return i; } i += 1; }
    usize::MAX
}
/// index of a node name in `names`, added if new
fn idx<'a>(names: &mut Vec<&'a str>, n: &'a str) -> usize {
    let mut i = 0;
    while i < names.len() { if names[i] == n { return i; } i += 1; }
    names.push(n);
    i
}
/// every unit and signal is evaluated exactly once, after everything it depends on; levels and the critical
/// path length are those of the dependency graph
fn order_ok(o: &PropOrder, units: &[&str], signals: usize) {
    let mut names: Vec<&str> = vec![];
    let mut es: Vec<(usize, usize)> = vec![];
    for (a, b) in &o.edges { let e = (idx(&mut names, a), idx(&mut names, b)); es.push(e); }
    // positions; ports are not evaluated themselves
    let mut n = 0;
    let mut i = 0;
    while i < o.order.len() {
        prove(pos(o, o.order[i].name) == i, "everything is evaluated once");
        if o.order[i].is_unit { n += 1; }
        i += 1;
    }
    prove(n == units.len() && o.order.len() == n + signals, "every unit and every signal is evaluated");
    for u in units { let p = pos(o, u); prove(p != usize::MAX && o.order[p].is_unit, "every unit is evaluated"); }
    let p: Vec<usize> = names.iter().map(|x| pos(o, x)).collect();
    // longest chain of units below each node, by relaxation (the graph is finite)
    let mut d = vec![0u32; names.len()];
    let w: Vec<u32> = p.iter().map(|x| (*x != usize::MAX && o.order[*x].is_unit) as u32).collect();
    let mut round = 0;
    loop {
        let mut ch = false;
        for (a, b) in &es { let x = d[*a] + w[*b]; if x > d[*b] { d[*b] = x; ch = true; } }
        if !ch { break; }
        round += 1;
        prove(round <= names.len() + 1, "the dependencies have no cycle");
    }
    let mut longest = 0;
    for x in &d { if *x > longest { longest = *x; } }
    prove(o.max_dist == longest + 1, "the cycle cost is the longest chain of units");
    // dependencies through ports: a port carries the latest of its sources
    let mut late = vec![0usize; names.len()];
    for (i, x) in p.iter().enumerate() { if *x != usize::MAX { late[i] = *x + 1; } }
    for _ in 0..2 { for (a, b) in &es { if p[*b] == usize::MAX && late[*a] > late[*b] { late[*b] = late[*a]; } } }
    for (a, b) in &es { if p[*b] != usize::MAX { prove(late[*a] <= p[*b], "everything is evaluated after what it depends on"); } }
    i = 0;
    while i < names.len() {
        if p[i] != usize::MAX { prove(o.order[p[i]].level == d[i], "levels count the units before"); }
        i += 1;
    }
}
macro_rules! arch {
    ($ord:ident, $settle:ident, $m:ident, [$($unit:literal)*], $fix:expr, [$($again:literal)*]) => {
        fn $ord() {
            use crate::architectures::builtin::$m::Arch;
            let c = Arch::build_circuit();
            order_ok(&c.order, &[$($unit),*], c.updates.updates.len());
            for i in &c.order.order { prove(i.is_unit || c.updates.updates.contains_key(i.name), "every signal in the order has a definition"); }
            let a = c.order;
            // every construction hashes with other keys
            let mut i = 0;
            while i < 3 {
                let b = Arch::build_circuit().order;
                prove(a.order.len() == b.order.len() && a.max_dist == b.max_dist, "every construction gives the same order");
                let mut k = 0;
                while k < a.order.len() { prove(a.order[k].name == b.order[k].name, "every construction gives the same order"); k += 1; }
                i += 1;
            }
            stop();
        }
        fn $settle() {
            use crate::architectures::builtin::$m::Arch;
            let mem = MemData::init([0u8; MEMZ]);
            let mut sim = Box::new(PipeSim::<Arch>::new(mem.clone(), false));
            any_mem(&mut mem.write()[..]);
            raw_any(&mut sim.cur_unit_out);
            raw_any(&mut sim.cur_unit_in);
            raw_any(&mut sim.cur_inter);
            raw_any(&mut sim.cur_state);
            raw_any(&mut sim.nex_state);
            sim.cycle_count = 0;
            $fix(&mut sim.cur_state);
            let m0 = Box::new(*mem.read());
            let c0 = snap(&sim.cur_state);
            sim.propagate_signals();
            same_bytes(&*c0, &sim.cur_state, "registers do not change within a cycle");
            prove(sim.cycle_count == 1, "one cycle is counted");
            // evaluating everything again changes nothing
            let (ui, it, ns, uo) = (snap(&sim.cur_unit_in), snap(&sim.cur_inter), snap(&sim.nex_state), snap(&sim.cur_unit_out));
            let pc = sim.cur_unit_in.imem.pc;
            if pc <= MEM - 10 {
                // no self-modifying code
                let mut i = 0;
                while i < 10 { assume(mem.read()[(pc + i) as usize] == m0[(pc + i) as usize]); i += 1; }
            }
            // (the same by the assumption, but simpler to see)
            let m1 = Box::new(*mem.read());
            *mem.write() = *m0;
            sim.units.run("imem", (&sim.cur_unit_in, &mut sim.cur_unit_out));
            *mem.write() = *m1;
            $( sim.units.run($again, (&sim.cur_unit_in, &mut sim.cur_unit_out)); )*
            same_bytes(&*uo, &sim.cur_unit_out, "unit outputs are those of the unit inputs");
            let s = &mut *sim;
            let mut rcd = s.circuit.updates.make_propagator(&mut s.cur_unit_in, s.cur_unit_out.clone(), &mut s.nex_state, &s.cur_state, &mut s.cur_inter);
            for item in &s.circuit.order.order { if !item.is_unit { rcd.run_combinatorial_logic(item.name); } }
            same_bytes(&*it, &sim.cur_inter, "signals have the value of their definition");
            same_bytes(&*ui, &sim.cur_unit_in, "unit inputs have the value of the signals wired to them");
            same_bytes(&*ns, &sim.nex_state, "register inputs have the value of the signals wired to them");
            stop();
        }
    };
}

arch!(order_seq, settle_seq, seq_std, ["imem" "ialign" "pc_inc" "reg_read" "reg_write" "alu" "reg_cc" "cond" "dmem"],
    |_s: &mut crate::architectures::builtin::seq_std::PipeRegs| {},
    ["ialign" "pc_inc" "alu" "reg_cc" "cond" "dmem"]);
arch!(order_seqp, settle_seqp, seq_plus_std, ["imem" "ialign" "pc_inc" "reg_read" "reg_write" "alu" "reg_cc" "cond" "dmem"],
    |s: &mut crate::architectures::builtin::seq_plus_std::PipeRegs| { s.s.cnd = any_bool(); },
    ["ialign" "pc_inc" "alu" "reg_cc" "cond" "dmem"]);
arch!(order_pipe, settle_pipe, pipe_std, ["imem" "ialign" "pc_inc" "reg_file" "alu" "reg_cc" "cond" "dmem"],
    |s: &mut crate::architectures::builtin::pipe_std::PipeRegs| {
        s.d.stat = any_stat(); s.e.stat = any_stat(); s.m.stat = any_stat(); s.w.stat = any_stat();
        s.m.cnd = any_bool();
        s.d.rA = any_nibble(); s.d.rB = any_nibble();
        s.e.srcA = any_nibble(); s.e.srcB = any_nibble(); s.e.dstE = any_nibble(); s.e.dstM = any_nibble();
        s.m.dstE = any_nibble(); s.m.dstM = any_nibble();
        s.w.dstE = any_nibble(); s.w.dstM = any_nibble();
    },
    ["ialign" "pc_inc" "reg_file" "alu" "reg_cc" "cond" "dmem"]);

// ---- the order builder itself: graphs no circuit may have, and all small graphs ---------------------
const UN: [&str; 2] = ["u1", "u2"];
const SN: [&str; 3] = ["s1", "s2", "s3"];
/// two units with one input and one output each and `ns` signals; bit (src, dst) of `bits` adds an edge
fn graph(ns: usize, bits: u64) -> PropOrderBuilder {
    let mut g = PropOrderBuilder::new();
    for u in UN {
        g.add_unit_node(u);
        g.add_unit_input(u, "i");
        g.add_unit_output(u, "o");
    }
    for s in &SN[..ns] { g.add_intermediate(s); }
    let n = 2 + ns;
    for k in 0..n * n {
        if bits >> k & 1 != 0 {
            let (a, b) = (k / n, k % n);
            let f = if a < 2 { format!("{}.o", UN[a]) } else { SN[a - 2].to_string() };
            let t = if b < 2 { format!("{}.i", UN[b]) } else { SN[b - 2].to_string() };
            g.add_edge(f, t);
        }
    }
    g
}
/// the graph is acyclic and both unit inputs are driven
fn graph_good(ns: usize, bits: u64) -> bool {
    let n = 2 + ns;
    let mut reach = [[false; 5]; 5];
    for a in 0..n { for b in 0..n { reach[a][b] = bits >> (a * n + b) & 1 != 0; } }
    let driven = (0..n).any(|a| reach[a][0]) && (0..n).any(|a| reach[a][1]);
    for k in 0..n { for a in 0..n { for b in 0..n { reach[a][b] |= reach[a][k] && reach[k][b]; } } }
    driven && (0..n).all(|a| !reach[a][a])
}
/// `bits` in rows of sources u1 u2 s1 s2 against destinations u1 u2 s1 s2
fn rejected(bits: u64) {
    prove(!graph_good(2, bits), "test data");
    let g = graph(2, bits);
    unsafe { vc_panics_ok(1) };
    let _ = g.build();
    prove(false, "a circuit with a combinational cycle or an undriven input is rejected");
}
const fn e(a: u64, b: u64) -> u64 { 1 << (a * 4 + b) }
const DRIVEN: u64 = e(2, 0) | e(2, 1);
fn bad_self() { rejected(DRIVEN | e(3, 3)) }
fn bad_pair() { rejected(DRIVEN | e(2, 3) | e(3, 2)) }
fn bad_unit() { rejected(DRIVEN | e(0, 2)) }
fn bad_units() { rejected(e(2, 0) | e(3, 1) | e(0, 3) | e(1, 2)) }
fn bad_undriven() { rejected(e(2, 0) | e(0, 3)) }
/// run natively only: all graphs with two signals, sampled graphs with three (bounded)
fn graphs() {
    std::panic::set_hook(Box::new(|_| {}));
    let check = |ns: usize, bits: u64| {
        let r = std::panic::catch_unwind(|| graph(ns, bits).build());
        if !graph_good(ns, bits) {
            if r.is_ok() { println!("graph: {ns} signals, edges {bits:#x}"); }
            prove(r.is_err(), "a circuit with a combinational cycle or an undriven input is rejected");
            return;
        }
        if r.is_err() { println!("graph: {ns} signals, edges {bits:#x}"); }
        prove(r.is_ok(), "an acyclic circuit is accepted");
        let o = r.unwrap_or_default();
        if let Err(x) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            order_ok(&o, &UN, ns);
            let p = graph(ns, bits).build();
            prove(o.order.len() == p.order.len() && o.order.iter().zip(&p.order).all(|(a, b)| a.name == b.name), "every construction gives the same order");
        })) {
            println!("graph: {ns} signals, edges {bits:#x}");
            std::panic::resume_unwind(x)
        }
    };
    for bits in 0..1 << 16 { check(2, bits); }
    let mut i = 0;
    while i < 20000 {
        let (a, b, c) = (any_u64(), any_u64(), any_u64());
        check(3, a & b & ((1 << 25) - 1));
        check(3, a & c & b.rotate_left(7) & ((1 << 25) - 1) | 0x21 << (a % 20));
        i += 1;
    }
}

pub static HARNESSES: &[(&str, fn())] = &[("order_seq", order_seq), ("order_seqp", order_seqp), ("order_pipe", order_pipe), ("settle_seq", settle_seq), ("settle_seqp", settle_seqp), ("settle_pipe", settle_pipe),
    ("bad_self", bad_self), ("bad_pair", bad_pair), ("bad_unit", bad_unit), ("bad_units", bad_units), ("bad_undriven", bad_undriven), ("graphs", graphs)];
