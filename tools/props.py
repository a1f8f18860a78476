TRUSTED = [
    'rustc and LLVM up to the optimised module that is analysed (the same pipeline that builds the program, overflow checks and debug assertions on)',
    'llvc (/verif/engine): the LLVM-IR semantics, object memory model and path merging of the verifier',
    'the SMT back ends z3 and cvc5 for unsat answers (sat answers are re-evaluated)',
    'stand-ins for the crates anyhow and tracing (error values without payload, log calls without effect), and the modelled libc calls (malloc, free, memcpy, write, getrandom)',
    'the specification in harness/spec/*.rs',
]
# replaying the verifier's state natively does not show the state is reachable: a program is searched instead
NATIVE_ONLY_REPLAY = {'C05'}

COMMON_ASSUME = [
    'poison and undefined values are read as arbitrary but fixed values',
    'single-threaded execution; allocation never fails',
]
PROPS = {
    'C01': dict(note='Unbounded proof: the loop of isa::simulate is cut at its head (hook), the invariant "any state" is established and every path through one iteration is shown to yield the specified successor. Trusts the verifier, rustc/LLVM, the SMT solvers and the specification.',
        parts=['isa'], harnesses=[('isa_step', [])], bounded='isa', covers={'isa_step': ['normal step', 'address fault']},
                assumptions=COMMON_ASSUME + ['operand fields naming no register (0xF where a register is required) and undefined condition codes are left unspecified']),
    'C02': dict(note='Unbounded proof of absence of panics, overflow and out-of-bounds accesses for one iteration from an arbitrary state, hence for all. Trusts the verifier, rustc/LLVM and the SMT solvers.',
        parts=['isa'], harnesses=[('isa_nocrash', [])], bounded='isa', assumptions=COMMON_ASSUME),
    'C03': dict(note='Unbounded proof of one cycle from an arbitrary state (arbitrary wires left over), hence for every history. Trusts the verifier, rustc/LLVM, the SMT solvers and the specification.',
        parts=['seqc', 'seq', 'seqb'], harnesses=[('seq_init', []), ('seq_step', [])], bounded='seq_std',
                covers={'seq_step': ['normal step', 'address fault', 'halt', 'invalid instruction']}, assumptions=COMMON_ASSUME),
    'C04': dict(note='Unbounded proof of one cycle from an arbitrary state (arbitrary wires left over), hence for every history. Trusts the verifier, rustc/LLVM, the SMT solvers and the specification.',
        parts=['seqc', 'seqp', 'seqb'], harnesses=[('seq_init', []), ('seq_step', [])], bounded='seq_plus_std',
                covers={'seq_step': ['normal step', 'address fault', 'halt', 'invalid instruction']}, assumptions=COMMON_ASSUME),
    'C05': dict(note='Unbounded proof by simulation: an inductive pipeline invariant plus, per stage, that one cycle moves each instruction on without changing what it does. Programs that overwrite an instruction in the cycle it is fetched, undefined encodings and the destination registers of a faulting instruction are left open.',
        parts=['pipe'], harnesses=[(h, []) for h in ['pipe_d', 'pipe_e', 'pipe_m', 'pipe_init', 'pipe_inv', 'pipe_w', 'pipe_f']], bounded='pipe_std', jobs=7,
                covers={'pipe_w': ['halt', 'address fault', 'invalid instruction'], 'pipe_m': ['address fault'], 'pipe_d': ['stall'], 'pipe_f': ['squash', 'fetch fault']},
                assumptions=COMMON_ASSUME + ['the bytes of an instruction are not written by a store in the cycle in which they are fetched (self-modifying code)',
                    'undefined encodings (function code out of range, operand field naming no register where one is required) are out of scope',
                    'the registers a faulting instruction itself would write are left open',
                    'the per-cycle obligations compose to whole runs by the argument in DESIGN.md (induction over cycles)']),
    'C06': dict(note='Unbounded proof of the contract of every hardware unit of both libraries from arbitrary inputs, unit state and output wires, with a frame condition on everything else.',
        parts=['units'], harnesses=[(h, []) for h in ['s_init', 's_imem', 's_ialign', 's_pc_inc', 's_alu', 's_reg_cc', 's_cond', 's_dmem', 's_reg_read', 's_reg_write', 'p_init', 'p_imem', 'p_ialign', 'p_pc_inc', 'p_alu', 'p_reg_cc', 'p_cond', 'p_dmem', 'p_reg_file']],
                covers={'s_imem': ['fetch error'], 'p_imem': ['fetch error'], 's_dmem': ['data error', 'write'], 'p_dmem': ['data error', 'write'], 's_reg_write': ['both ports write the same register'], 'p_reg_file': ['both ports write the same register']},
                assumptions=COMMON_ASSUME + ['register numbers on the ports are four bits wide']),
    'C07': dict(note='Unbounded proof over all operands, operations and flag settings, stated over the mathematical integers.',
        parts=['flags'], harnesses=[(h, []) for h in ['flags_alu', 'flags_cc', 'flags_cmp', 'flags_test', 'flags_seq', 'flags_pipe']], assumptions=COMMON_ASSUME),
    'C08': dict(note='Unbounded proof of the clock tick from arbitrary register contents and arbitrary control signals, for the three built-in processors and a user-defined set of registers.',
        parts=['stages'], harnesses=[(h, []) for h in ['tick_seq', 'tick_seqp', 'tick_pipe', 'on_seq', 'on_seqp', 'on_pipe', 'tick_user']],
                covers={h: ['bubble', 'stall', 'load'] for h in ['tick_seq', 'tick_seqp', 'tick_pipe']},
                assumptions=COMMON_ASSUME + ['a register told both to stall and to bubble is left unspecified', 'user-defined stage registers: one declaration with every supported shape of field stands for all']),
    'C09': dict(note='Unbounded proof for the three built-in circuits (order, settling from arbitrary state) and five cyclic or undriven circuits; other circuits: exhaustive for two units and two signals, sampled for three (bounded, not counted as proved).',
        parts=['circuit'], harnesses=[(h, []) for h in ['settle_pipe', 'order_pipe', 'order_seqp', 'order_seq', 'settle_seq', 'settle_seqp', 'bad_self', 'bad_pair', 'bad_unit', 'bad_units', 'bad_undriven']], jobs=7,
                native=[('graphs', 'bounded: all 65536 dependency graphs over two units and two signals, 40000 sampled ones with three signals')],
                covers={h: ['expected-panic'] for h in ['bad_self', 'bad_pair', 'bad_unit', 'bad_units', 'bad_undriven']},
                assumptions=COMMON_ASSUME + ['the bytes of an instruction are not written by a store in the cycle in which they are fetched', 'SEQ and SEQ+ register-read units and the register-write unit are re-evaluated only as far as their outputs do not depend on the write of the same cycle',
                    'operand fields of the pipeline registers hold four bits']),
    'C10': dict(note='Unbounded proof, from an arbitrary state, for one circuit written in HCL that uses every construct of the language with definitions in an order unrelated to the data flow; the built-in circuits are covered by C03 to C05.',
        parts=['hcl'], harnesses=[('toy_step', [])], covers={'toy_step': ['terminates', 'goes on']},
                assumptions=COMMON_ASSUME + ['the macro is a program over source text: the circuit used stands for all circuits built from the same constructs']),
    'C11': dict(note='Unbounded proof of the contract of the encoder: every instruction kind, operand, label value and address over an arbitrary image.',
        parts=['enc'], harnesses=[(h, []) for h in ['e_simple', 'e_cmov', 'e_irmov', 'e_rmmov', 'e_mrmov', 'e_op', 'e_jump', 'e_call', 'e_push', 'e_pop', 'e_iop', 'e_data', 'e_none']],
                covers={h: ['encoded', 'rejected'] for h in ['e_simple', 'e_cmov', 'e_irmov', 'e_rmmov', 'e_mrmov', 'e_op', 'e_jump', 'e_call', 'e_push', 'e_pop', 'e_iop', 'e_data']},
                assumptions=COMMON_ASSUME + ['an object with two labels of arbitrary value stands for all symbol tables (the ordered map of the standard library is executed as it is)']),
    'C12': dict(note='Proof over every position in memory for each of a fixed list of source texts that runs through every form of the grammar (every mnemonic with every register); the texts themselves are enumerated, not all texts.',
        parts=['asm'], harnesses=[(h, []) for h in ['moves', 'numbers', 'one_reg', 'ops', 'loads', 'labels', 'forms', 'errors', 'errors2']], jobs=7,
                covers={h: ['assembled'] for h in ['one_reg', 'moves', 'ops', 'loads', 'labels', 'numbers', 'forms']},
                assumptions=COMMON_ASSUME + ['one text per grammar form and register stands for all texts of that form', 'whatever precedes the text is represented by the position it leaves (hook at the head of the assembly loop)']),
    'C13': dict(note='Unbounded proof over every position at which a label or directive can stand (all 64-bit addresses), for a list of directive operands.',
        parts=['dirs'], harnesses=[(h, []) for h in ['align', 'align_data', 'pos', 'cross', 'sizes', 'undefined']],
                covers={'align': ['aligned'], 'align_data': ['assembled'], 'pos': ['in memory', 'outside'], 'cross': ['assembled']},
                assumptions=COMMON_ASSUME + ['the operands of .pos and .align are enumerated; positions and label values are arbitrary', 'whatever precedes the text is represented by the position it leaves (hook at the head of the assembly loop)']),
    'C14': dict(note='Proof over every text made of the listed number of characters (digits, prefix, sign), for literals inside, at and beyond the range of their type; lengths are enumerated.',
        parts=['lit'], harnesses=[(h, []) for h in ['hex', 'dec', 'dec_value', 'range', 'any', 'bytes', 'words']],
                covers={'hex': ['a number', 'no number'], 'dec': ['a number', 'no number'], 'range': ['in range', 'out of range'], 'bytes': ['bytes']},
                assumptions=COMMON_ASSUME + ['literals of 16 to 18 decimal digits have concrete leading digits', 'a leading + is left open']),
    'C15': dict(note='Proof over every address and every operand of the listed line kinds (listing), and over every character of the listed text shape (loader); the listing is composed with the yis program as compiled from its source file.',
        parts=['yo'], harnesses=[(h, []) for h in ['listing', 'overlap', 'outside', 'line', 'malformed']],
                covers={'listing': ['loaded'], 'overlap': ['loaded'], 'outside': ['loaded'], 'line': ['loaded', 'rejected', 'well-formed', 'malformed'], 'malformed': ['rejected']},
                assumptions=COMMON_ASSUME + ['src/bin/yis.rs is included verbatim in a module where reading the file, parsing the command line and setting up logging are replaced', 'line kinds and number of lines are enumerated']),
    'C16': dict(note='Proof over arbitrary file contents, programs, memory images and cycle limits of yas and ysim as compiled from their source files, each callee (assembler, simulator, file system) taken by its contract; mem_diff for arbitrary words in arbitrary memories.',
        parts=['cli'], harnesses=[('yas', []), ('ysim', []), ('diff', [])],
                covers={'yas': ['written', 'error'], 'ysim': ['runs on', 'ended', 'limit', 'error'], 'diff': ['shown', 'equal']},
                assumptions=COMMON_ASSUME + ['src/bin/yas.rs, src/bin/ysim.rs and src/utils.rs are included verbatim in modules where the file system, the command line, log setup, print macros, terminal styles, assemble, create_sim and mem_diff are replaced by their contracts',
                    'file names are enumerated; --info and unknown processor names are left out', 'the words in which the two memories of mem_diff differ are at enumerated places']),
    'C17': dict(note='Proof over arbitrary positions, cycle counts, limits, register values, numbers in requests and states of the program (hence any number of cycles) of the debug server as compiled from its source file; the sequence of requests is enumerated.',
        parts=['dbg'], crate='-dbg', harnesses=[('breakpoints', []), ('run', []), ('inspect', []), ('errors', [])],
                covers={'breakpoints': ['session'], 'run': ['breakpoint', 'ended', 'limit', 'runs on', 'session', 'stepped'], 'inspect': ['line', 'no line', 'shown', 'session'], 'errors': ['session']},
                assumptions=COMMON_ASSUME + ['debugger/src/server.rs is included verbatim in a module where the file system, assemble, create_sim and the protocol server of crate dap (which reads and writes JSON) are replaced by their contracts',
                    'sequences of requests are enumerated; the program they act on is in an arbitrary state', 'positions have 4 hexadecimal digits, cycle counts 4 decimal digits (they are also printed)', 'a program of four lines stands for all programs']),
}
