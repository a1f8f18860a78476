
fn seq_init() {
    let mut m = Box::new([0u8; MEMZ]);
    any_mem(&mut m[..]);
    let mem = MemData::init(*m);
    let mut sim = PipeSim::<A>::new(mem.clone(), false);
    let r = sim.registers();
    let mut i = 0;
    while i < 15 { prove(r[i] == 0, "initially the registers are 0"); i += 1; }
    prove(next_pc(&sim) == 0, "execution starts at address 0");
    prove(!sim.is_terminate(), "initially not terminated");
    prove(sim.cycle_count() == 0, "initially no cycle has run");
    prove(sim.cur_inter.mem_addr <= MEM - 8, "initially the memory address line holds a valid address");
    let c = read_cc(&mut sim.units);
    prove(!c.sf && !c.zf && !c.of, "initially the condition codes are clear");
    let k = (any_u64() & 0xffff) as usize;
    prove(mem.read()[k] == m[k], "initially memory holds the program");
    stop();
}

fn seq_step() {
    let mem = MemData::init([0u8; MEMZ]);
    let mut sim = PipeSim::<A>::new(mem.clone(), false);
    any_mem(&mut mem.write()[..]);
    havoc_units(&mut sim.units, &mut sim.cur_unit_out);
    havoc_state(&mut sim);
    // values left over on the wires by earlier cycles; an address line that is not driven keeps a valid address
    raw_any(&mut sim.cur_unit_out);
    raw_any(&mut sim.cur_unit_in);
    raw_any(&mut sim.cur_inter);
    assume(sim.cur_inter.mem_addr <= MEM - 8);
    let n0 = any_u64();
    assume(n0 < u64::MAX);
    sim.cycle_count = n0;
    let pc = next_pc(&sim);
    let cc = read_cc(&mut sim.units);
    let mut s = Spec { regs: sim.registers(), sf: cc.sf, zf: cc.zf, of: cc.of, pc, mem: Box::new(*mem.read()) };
    let k = (any_u64() & 0xffff) as usize;
    if pc > MEM - 10 {
        // the instruction cannot be fetched
        sim.step();
        prove(sim.is_terminate(), "a fetch outside memory stops the processor");
        prove(mem.read()[k] == s.mem[k], "a failed fetch leaves memory unchanged");
        stop();
    }
    let d = fetch(&s.mem, pc).unwrap();
    assume(fields_ok(&d) && operands_ok(&d));
    let r = exec(&mut s, &d, false);
    sim.step();
    prove(sim.cycle_count() == n0 + 1, "a step is one cycle");
    cover(r == st::OK, "normal step");
    if r == st::OK {
        prove(!sim.is_terminate(), "a normal instruction does not stop the processor");
        prove(next_pc(&sim) == s.pc, "next pc");
        prove(sim.cur_inter.mem_addr <= MEM - 8, "the memory address line holds a valid address");
        let c = read_cc(&mut sim.units);
        prove(c.sf == s.sf && c.zf == s.zf && c.of == s.of, "condition codes");
        prove(mem.read()[k] == s.mem[k], "memory");
        let g = sim.registers();
        let mut same = true;
        let mut i = 0;
        while i < 15 { same &= g[i] == s.regs[i]; i += 1; }
        prove(same, "registers");
    } else {
        prove(sim.is_terminate(), "halt, an invalid instruction and an invalid address stop the processor");
        if r == st::HLT {
            let c = read_cc(&mut sim.units);
            prove(c.sf == s.sf && c.zf == s.zf && c.of == s.of, "halt leaves the condition codes unchanged");
            prove(mem.read()[k] == s.mem[k], "halt leaves memory unchanged");
            let g = sim.registers();
            let mut same = true;
            let mut i = 0;
            while i < 15 { same &= g[i] == s.regs[i]; i += 1; }
            prove(same, "halt leaves the registers unchanged");
        }
        cover(r == st::ADR, "address fault");
        cover(r == st::INS, "invalid instruction");
        cover(r == st::HLT, "halt");
    }
    stop();
}
pub static HARNESSES: &[(&str, fn())] = &[("seq_init", seq_init), ("seq_step", seq_step)];
