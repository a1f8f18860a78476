#!/usr/bin/env python3
"""writes properties.jsonl (kept as data here because JSON lines are hard to edit)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=hook)))

p('C01', 'The reference simulator executes every instruction as the Y86-64 ISA says',
  '''From any program image, registers, condition codes and program counter, the reference (instruction-level) simulator's next step
  changes registers, condition codes, memory and program counter exactly as the Y86-64 definition of the fetched instruction (iopq included)
  requires, counts it once, and leaves everything else alone. It starts at address 0 with cleared registers and flags, ends normally exactly on
  halt, and reports an error exactly for instructions that are undefined, do not fit in memory or access memory outside it.''',
  ['programs', 'inputs', 'histories'],
  'every 64 KiB memory image, every register file, flag setting and pc, hence every program and any number of executed instructions',
  'The tests run three short programs (opq, cmov, jumps) to completion; no memory, call/ret, push/pop, iopq, fault or boundary case is run, and no test can cover 2^64 operand values or all states.',
  ['sim/src/isa.rs', 'sim/src/utils.rs'],
  [('instruction loop', 'sim/src/isa.rs simulate'), ('ALU and flags', 'sim/src/isa.rs arithmetic_compute, ConditionCode::set/test'), ('little-endian access', 'sim/src/utils.rs get_u64/put_u64')],
  [dict(name='bin, reg_file, reg_cc, pc', meaning='architectural state', where='sim/src/isa.rs simulate')],
  ['StandardResult returned by isa::simulate', 'yis'], 'loop-head hook in isa::simulate (feature verif)')
p('C02', 'No program can crash the reference simulator',
  '''Whatever bytes the memory image holds, the reference simulator never panics, never reads or writes outside its memory image and never overflows:
  wild jumps, stack pointers and addresses, truncated and undefined instructions end in a reported error.''',
  ['programs', 'inputs', 'histories'], 'every memory image and every reachable (in fact every) register/flag/pc state at every step',
  'The tests only run well-formed programs that stay inside memory.',
  ['sim/src/isa.rs', 'sim/src/utils.rs'], [('range checks', 'sim/src/isa.rs simulate')], [], ['isa::simulate', 'yis'], 'loop-head hook in isa::simulate (feature verif)')
p('C03', 'Each SEQ cycle executes exactly one instruction as the ISA specifies',
  '''One step of the SEQ processor, from any memory, registers, flags and pc, executes exactly the instruction at pc as the Y86-64 instruction set
  defines it (registers, flags, memory and next pc), whatever earlier cycles left on the wires, and costs one cycle.
  It stops the processor exactly on halt, an undefined instruction, or an instruction fetch or data access outside memory. Execution starts at address 0 with cleared registers and flags.''',
  ['programs', 'inputs', 'histories'], 'every memory image, register file, flag setting, pc and leftover signal value: hence every program and every number of cycles',
  'The tests compare the final registers of three small programs with the reference simulator; loads, stores, stack operations, calls, faults, and 64-bit corner values are never run.',
  ['sim/src/architectures/builtin/seq_std.rs', 'sim/src/architectures/hardware_seq.rs', 'sim/src/framework/mod.rs', 'sim/src/framework/propagate.rs', 'sim/src/dsl.rs', 'sim_macro/src/lib.rs', 'sim/src/isa.rs'],
  [('control logic', 'seq_std.rs hcl! block'), ('hardware units', 'hardware_seq.rs define_units!'), ('evaluation order', 'propagate.rs'), ('clock tick', 'dsl.rs mux')],
  [dict(name='s.pc', meaning='program counter register', where='seq_std.rs')], ['CpuSim::step, registers(), is_terminate(), cycle_count()', 'MemData'], None)
p('C04', 'Each SEQ+ cycle executes exactly one instruction as the ISA specifies',
  '''As for SEQ: one step of the SEQ+ processor, from any state, executes exactly one instruction of the Y86-64 instruction set, the one at the
  program counter selected from the previous instruction's results, whatever earlier cycles left on the wires. It stops exactly on halt, undefined instructions and accesses outside memory.''',
  ['programs', 'inputs', 'histories'], 'every memory image, register file, flag setting, content of the stage register and leftover signal value',
  'As for C03; in addition the pc selection depends on the previous cycle, so a bug shows only for particular instruction pairs.',
  ['sim/src/architectures/builtin/seq_plus_std.rs', 'sim/src/architectures/hardware_seq.rs', 'sim/src/framework/mod.rs', 'sim/src/dsl.rs', 'sim_macro/src/lib.rs', 'sim/src/isa.rs'],
  [('control logic', 'seq_plus_std.rs hcl! block'), ('hardware units', 'hardware_seq.rs'), ('clock tick', 'dsl.rs mux')],
  [dict(name='s.{icode,valC,valM,valP,cnd}', meaning='results of the previous instruction', where='seq_plus_std.rs')], ['CpuSim::step, registers(), is_terminate()', 'MemData'], None)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'moreprops.py')).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
