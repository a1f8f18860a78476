p('C05', 'The pipelined processor is equivalent to executing instructions one at a time',
  '''For every program that does not overwrite instructions already being fetched, the pipelined processor produces the same final registers, flags
  and memory as executing the program one instruction at a time: hazards, forwarding, branch misprediction, returns and exceptions are invisible.
  It makes progress (stalls and squashed instructions are bounded) and stops with the status of the first instruction that halts or faults, later instructions leaving no trace.''',
  ['programs', 'inputs', 'histories'], 'every reachable content of the five pipeline registers, the register file, flags and memory: every instruction sequence and every data value',
  'No test runs the pipelined processor at all in the stable suite; hazards depend on particular combinations of up to five instructions in flight.',
  ['sim/src/architectures/builtin/pipe_std.rs', 'sim/src/architectures/hardware_pipe.rs', 'sim/src/framework/mod.rs', 'sim/src/framework/propagate.rs', 'sim/src/dsl.rs', 'sim_macro/src/lib.rs', 'sim/src/isa.rs'],
  [('forwarding, stall and bubble logic', 'pipe_std.rs hcl! block'), ('register file write-before-read', 'hardware_pipe.rs'), ('clock tick', 'dsl.rs mux')],
  [dict(name='f, d, e, m, w', meaning='pipeline registers', where='pipe_std.rs define_stages!')], ['CpuSim::step, registers(), is_terminate()', 'MemData'], None)
p('C06', 'Every hardware unit does exactly what its interface says',
  '''Each hardware unit of both unit libraries computes its outputs from its inputs alone (and its own state), whatever was left on its output wires:
  instruction memory returns the bytes at pc and flags a fetch that leaves memory; instruction alignment, pc increment, ALU, condition codes, condition
  evaluation, data memory and register files follow their documented behaviour, including accesses at the ends of memory, writes to no register, both
  ports writing one register, and reads of a register written in the same cycle. A unit changes nothing but its outputs and its own state; when it is told not to
  write, or the access faults, its state stays as it was.''',
  ['inputs', 'histories'], 'every input value, every unit state (memory, registers, flags) and every leftover output value, for each unit',
  'No test exercises a unit on its own; boundaries such as the last eight bytes of memory, %rnone and simultaneous writes appear in no test program.',
  ['sim/src/architectures/hardware_seq.rs', 'sim/src/architectures/hardware_pipe.rs', 'sim/src/dsl.rs', 'sim/src/isa.rs', 'sim/src/utils.rs'],
  [('unit bodies', 'define_units! in hardware_seq.rs and hardware_pipe.rs'), ('dispatch by name', 'dsl.rs define_units!, HardwareUnits::run')],
  [dict(name='units', meaning='memories, register file, condition codes', where='hardware_*.rs')], ['HardwareUnits::run, register_file()', 'MemData'], None)
p('C07', 'Arithmetic, condition codes and conditions are exact for all 64-bit values',
  '''For all operands, op1 OP op2 yields the two's complement 64-bit result; ZF says the result is zero, SF its sign bit and OF that the signed result
  does not fit (addq, subq) or 0 (andq, xorq). After subq b-a (and iopq) each condition le, l, e, ne, ge, g is true exactly when the signed comparison of b with a says so,
  for every pair of values. The processors' ALU, condition-code and condition units agree with the reference simulator.''',
  ['inputs'], 'all 2^128 operand pairs, all operations, all flag settings and all condition codes',
  'Overflow and sign corner cases (INT64_MIN, wrap around) are a vanishing part of the operand space; the tests use small positive numbers.',
  ['sim/src/isa.rs', 'sim/src/architectures/hardware_seq.rs', 'sim/src/architectures/hardware_pipe.rs'],
  [('flags', 'isa.rs ConditionCode::set'), ('conditions', 'isa.rs ConditionCode::test'), ('result', 'isa.rs arithmetic_compute')],
  [dict(name='ConditionCode', meaning='zf, sf, of', where='isa.rs')], ['arithmetic_compute, ConditionCode::set, ConditionCode::test', 'HardwareUnits::run'], None)
p('C08', 'Clock tick: each stage register loads, holds or clears as it is told',
  '''At a clock tick every pipeline register independently takes the values put on its inputs, keeps its contents when it is stalled, or becomes an empty no-op with its
  declared default values when it is bubbled, whatever the contents of all the registers; nothing else changes. At power-on every register holds its default values and no cycle has been counted.
  This holds for the built-in processors and for user-declared stages.''',
  ['inputs', 'histories'], 'every content of all registers and inputs and every combination of stall and bubble signals (both on the same register excepted)',
  'The combination of control signals and contents at a tick depends on the program; tests see a handful of them.',
  ['sim/src/dsl.rs', 'sim/src/framework/mod.rs', 'sim/src/architectures/builtin/pipe_std.rs', 'sim/src/architectures/builtin/seq_std.rs', 'sim/src/architectures/builtin/seq_plus_std.rs'],
  [('tick', 'dsl.rs define_stages! mux'), ('driver', 'framework/mod.rs PipeSim::initiate_next_cycle')],
  [dict(name='cur_state, nex_state', meaning='register contents and register inputs', where='framework/mod.rs PipeSim')], ['PipeSim state, CpuSim::registers, cycle_count'], None)
p('C09', 'Signals are evaluated once, after what they depend on, the same every run',
  '''For every circuit without combinational cycles the evaluation order contains every unit and signal exactly once, each after everything it depends on, and is the same
  in every run; the reported cycle cost is the longest chain of units. After a cycle all signals are settled: every unit output, signal and register input has the value its
  definition gives for the values of that cycle, none left over from before. A circuit with a combinational cycle, or a unit input nobody drives, is rejected.''',
  ['programs', 'inputs', 'schedules'], 'every circuit and every hash seed (iteration order of hash maps), every state the circuit is evaluated from',
  'A wrong order shows only for some hash seeds and as a stale value of one signal; tests run a few circuits a few times.',
  ['sim/src/framework/propagate.rs', 'sim/src/framework/mod.rs', 'sim/src/dsl.rs', 'sim_macro/src/lib.rs'],
  [('topological order', 'propagate.rs PropOrderBuilder::build'), ('evaluation', 'framework/mod.rs propagate_signals'), ('dependency edges', 'sim_macro/src/lib.rs')],
  [dict(name='PropOrder', meaning='evaluation order', where='propagate.rs')], ['PropOrder (order, level, max_dist)', 'PipeSim signals after propagate_signals'], None)
p('C10', 'HCL definitions mean what they say',
  '''A processor described in HCL behaves as its text says: definitions may come in any order and in any section; a case list takes the value of the first case whose condition holds;
  ! binds tighter than == and !=, these tighter than &&, that tighter than ||, `in` tests membership of the listed values; signals reach every destination they are sent to (unit inputs, stage
  registers and their stall and bubble inputs); constants, stage aliases, the program counter and the termination condition are those declared.''',
  ['programs', 'inputs'], 'every value of the registers and signals of a circuit built from these constructs',
  'The macro has no test of its own; a wrong precedence or a case order bug shows only for some signal values.',
  ['sim_macro/src/lib.rs', 'sim_macro/src/items.rs', 'sim_macro/src/expr.rs', 'sim/src/dsl.rs', 'sim/src/framework/mod.rs', 'sim/src/framework/propagate.rs'],
  [('parsing and code generation', 'sim_macro/src'), ('propagation', 'framework')],
  [dict(name='cur_unit_in, cur_inter, nex_state', meaning='signals', where='framework/mod.rs PipeSim')], ['unit inputs, stage register inputs, program_counter(), is_terminate()'], None)
p('C11', 'Every instruction and datum is encoded as the Y86-64 ISA says, in its place',
  '''The assembler's encoder writes, for every instruction, operand and address, exactly the Y86-64 encoding of that instruction (or the little-endian datum of the stated size) at the address of the line
  and changes no other byte and no label; an instruction's length is that of its encoding. A line that uses an undefined label, or whose bytes do not lie in memory, is reported as an error, never a panic.''',
  ['inputs'], 'every instruction, register pair, condition, operation, 64-bit immediate, displacement and label value, at every 64-bit address, over an image that already holds other bytes',
  'The tests assemble a handful of programs and look at final registers; most register pairs, immediates above 32 bits and addresses at the end of memory are never encoded.',
  ['sim/src/object.rs', 'sim/src/asm/mod.rs', 'sim/src/isa.rs', 'sim/src/utils.rs'],
  [('encoding', 'object.rs LineInfo::write_object'), ('length and opcode', 'asm/mod.rs Inst::len, Inst::icode'), ('operand values', 'object.rs Imm::desymbol'), ('byte order', 'utils.rs put_u64')],
  [dict(name='Object', meaning='memory image and symbols', where='object.rs')], ['LineInfo::write_object, Object::init_mem, Object::symbols', 'yas'], None)
p('C12', 'The assembler takes source text to the instructions it names',
  '''Source text assembles, line by line, to the instructions and data it names: every mnemonic with every register, all operand forms, number literals, labels (also ones that look like a mnemonic, a condition or a
  register), with any spacing, comments and line ends; each line is listed once with its source text and address, every label has the address of what follows it, and nothing else is written.
  Text that is not Y86 assembly, or uses undefined names or numbers out of range, is reported as an error, never a panic.''',
  ['programs', 'inputs'], 'every instruction form, mnemonic and register named by the grammar, each at every position in memory',
  'The tests assemble a few programs that use a fraction of the forms; a wrong suffix, prefix or ordered choice shows only for particular mnemonics, labels or spacing.',
  ['sim/src/asm/mod.rs', 'sim/src/asm/grammer.pest', 'sim/src/object.rs', 'sim/src/utils.rs'],
  [('grammar', 'asm/grammer.pest'), ('parse tree to instructions', 'asm/mod.rs From<Pair> implementations, parse_line'), ('assembly loop', 'asm/mod.rs assemble')],
  [dict(name='cur_addr', meaning='position in memory', where='asm/mod.rs assemble')], ['assemble', 'yas'], 'line-head hook in asm::assemble (feature verif)')
p('C13', 'Labels and directives place code and data where they say',
  '''Wherever assembly stands, a label is the address of what follows it, .align moves to the next multiple of its power of two (or stays), .pos moves to the given address, data directives advance by their size;
  labels may be used before they are defined; where text overlaps, the later text wins; every byte not written is zero. Code or data that would not fit in memory, and alignments past the last address, are reported as errors, never a panic.''',
  ['programs', 'inputs'], 'every current position (all 64-bit addresses) at which a directive or label may stand',
  'Tests use small aligned positions only; boundaries at the end of memory or of the address space, and positions that are already aligned, are not sampled.',
  ['sim/src/asm/mod.rs', 'sim/src/object.rs', 'sim/src/utils.rs'],
  [('assembly loop', 'asm/mod.rs assemble'), ('writing', 'object.rs LineInfo::write_object')],
  [dict(name='cur_addr', meaning='position in memory', where='asm/mod.rs assemble'), dict(name='symbols', meaning='label addresses', where='object.rs Object')], ['assemble', 'yas'], 'line-head hook in asm::assemble (feature verif)')
p('C14', 'Number literals denote the value they spell',
  '''Every number literal (decimal or hexadecimal, either letter case, with or without minus sign) and every byte string stands for exactly the value it spells, in two's complement of 64 bits; literals
  that do not fit, and text that is no number, are errors, never a panic and never a wrapped value. Words are stored and read little-endian at every address.''',
  ['inputs'], 'every digit string of each length and prefix, including the ends of the 64-bit range, every byte and every word at every offset',
  'Wrong values show only for particular digits, letter case or at the ends of the 64-bit range; tests use small numbers.',
  ['sim/src/utils.rs', 'sim/src/asm/mod.rs'],
  [('literals', 'utils.rs parse_literal and its helpers'), ('bytes', 'utils.rs decode_hex'), ('words', 'utils.rs get_u64/put_u64')], [], ['parse_literal', 'assemble', 'decode_hex'], None)
p('C15', 'The .yo listing shows the memory image and loads back to it',
  '''The listing written for an assembled program shows for every line its address, exactly the bytes the line put in memory, in order, and its source text; loading the listing with yis starts the
  simulator at address 0 on exactly the assembled memory image, whatever the source text contains and wherever lines overlap. Listings that are malformed or place bytes outside memory are reported as an error, never a panic.''',
  ['inputs', 'programs'], 'every line kind at every address with every value, every pair of overlapping lines, every address and byte text of a listing line',
  'The tests never write or read a listing.',
  ['sim/src/object.rs', 'sim/src/bin/yis.rs', 'sim/src/utils.rs', 'sim/src/isa.rs'],
  [('listing', 'object.rs Display for ObjectExt'), ('loader', 'bin/yis.rs main'), ('bytes', 'utils.rs decode_hex')], [], ['yas -o', 'yis'], 'loop-head hook in isa::simulate (feature verif)')
p('C16', 'yas and ysim do what they say with the files and limits they are given',
  '''yas writes exactly the listing of the program assembled from the named file to the named output (by default the input's name with extension yo) and reports success; if reading, assembling or writing fails
  it reports an error, and on the first two writes nothing. ysim runs the assembled program on the named processor until it ends, never beyond, and then shows every memory word that changed, with its
  address and its bytes before and after, and no other; it reports an error if the program is incorrect or the cycle limit is exceeded.''',
  ['inputs', 'histories'], 'every file content, every program and image, every number of steps, every limit, every change of memory',
  'No test runs the command line tools; limits, failing writes and the difference shown at the last word are never exercised.',
  ['sim/src/bin/yas.rs', 'sim/src/bin/ysim.rs', 'sim/src/utils.rs'],
  [('assembler tool', 'bin/yas.rs main'), ('simulator tool', 'bin/ysim.rs main'), ('difference', 'utils.rs mem_diff')], [], ['files written, exit status, standard output'], None)
p('C17', 'The debugger runs, stops and shows the program as it is asked to',
  '''After continue the debugger runs cycles until the first one that reaches the address of a line with a breakpoint (of the last set of breakpoints), the end of the program or the cycle limit, and next runs one cycle; then it tells
  the client exactly once that, and why, the program has stopped, naming the breakpoint. Every requested breakpoint is answered, in order, verified exactly if its line has an address. Registers, signals and the current line
  shown are those of the current cycle. Every request gets exactly one answer; what cannot be served is refused by an error and the session goes on, never a panic.''',
  ['inputs', 'histories'], 'every program state, address of the lines, set of breakpoint lines, cycle count and limit, every number in a request',
  'The debugger has no tests; a breakpoint that is missed or a stop reported twice depends on the history of the session and the addresses of the lines.',
  ['debugger/src/server.rs', 'sim/src/object.rs'],
  [('requests', 'server.rs DebugServer::handle_request, serve_req'), ('running', 'server.rs DebugServer::run_prog'), ('lines and addresses', 'object.rs SourceInfo')],
  [dict(name='breakpoints, status, inner', meaning='state of the session', where='server.rs DebugServer')], ['responses and events of the debug adapter protocol'], None)
