CG = 'crates/compiler/codegen/src/'; MI = 'crates/compiler/mir/src/'; RN = 'crates/runner/src/'; CO = 'crates/common/src/'
BACK = ['stwo-prover, sonic-rs and paste are replaced by small stand-ins (stubs/) as their sources are not available here; M31 and QM31 arithmetic is that of stwo (field operations are encoded over the integers modulo 2^31-1)']
def EB(name, reach=('end',), **k): return E(name, crate='back', reach=reach, **k)
def bprop(*a, **k): prop(*a, assume=BACK, **k)
bprop('I01', 'Instructions survive every encoding and nothing else decodes',
 'An instruction written as JSON reads back as itself. The words of an instruction are its opcode and its operands in order; their number, the sizes by opcode and the number of memory cells agree; words and padded cells decode to the instruction they were made from, also out of memory between other things; words decode to an instruction exactly if the opcode is known and the number of words is that of the opcode, and then to that instruction.',
 ['inputs'], 'all instructions with all operands, and all words of up to 6 values',
 'The tests encode a few instructions with a few operands.', [CO + 'instruction.rs', RN + 'memory/mod.rs'],
 [('opcodes, sizes, words and cells', CO + 'instruction.rs define_instruction!'), ('fetching', RN + 'memory/mod.rs get_instruction')],
 [EB('h_codec'), EB('h_decode', reach=['unknown']), EB('h_json')],
 'all 39 opcodes, any operands; up to one cell before and after the instruction in memory; words: none to 6, each any field element; JSON values: each operand in turn any field element, the others 0 or the greatest.',
 'JSON as text (serde_json), the debug information of a program.')
bprop('V01', 'Every VM instruction does what the architecture says',
 'For any instruction on any memory contents: the value computed (in the field or on 32 bits), where it is written, that nothing else changes, the next pc and fp, the log of memory accesses and its length, and the cases that are errors (division by zero, limbs beyond 16 bits, addresses beyond the memory, failed assertions) are those of the instruction.',
 ['inputs'], 'all operand values, memory contents and overlaps of operands within the bounds',
 'The tests run each instruction on one or two values; overlapping operands, wrap-around of addresses, carries between limbs and the field boundary are values no list of examples covers.',
 [RN + 'vm/instructions/', RN + 'vm/state.rs', RN + 'memory/mod.rs'],
 [('instructions', RN + 'vm/instructions/*.rs'), ('reads, writes and the log', RN + 'memory/mod.rs')],
 [EB('h_op', reach=['done', 'error'])],
 'all 39 opcodes; 9 cells of any contents around the frame pointer; offsets from 9 values (before, at and after the frame pointer, overlapping, wrapping, beyond the memory); any immediates and pc.',
 'Division of felts by zero (a documented panic); memory beyond 9 cells other than as unwritten.')
bprop('E01', 'Compiled expressions have the value the source says',
 'A function that computes an expression on felts, u32s and bools returns, compiled with and without optimisations and run on the VM, what an interpreter of the source computes, for any arguments: operators of both number types with literals, variables and the same operand twice, nested both ways, comparisons and boolean operators as values and as conditions, negation, casts, constants, literals typed by their context, and assertions, divisions and casts that fail when their value is used.',
 ['inputs', 'programs'], 'all arguments of all the generated programs',
 'The tests run a few arguments through a few programs; constant folding, immediates, the swap of operands and carries between limbs go wrong for particular values of particular forms.',
 [MI + 'lowering/expr.rs', MI + 'passes/', CG + 'builder.rs', CG + 'generator.rs', RN + 'vm/'],
 [('lowering', MI + 'lowering/expr.rs'), ('simplification and constant folding', MI + 'passes/'), ('code for operations', CG + 'builder.rs'), ('instructions', RN + 'vm/instructions')],
 [EB('h_felt_op'), EB('h_u32_op', reach=['end', 'fault']), EB('h_felt_expr'), EB('h_u32_expr', reach=['end', 'fault']), EB('h_bool_expr'), EB('h_literal'), EB('h_literal_context'), EB('h_misc', reach=['end', 'fault'])],
 'one operator on parameters, a variable that holds a constant and 10 literals each side; two operators nested both ways on 3 parameters and literals; two of 8 conditions under 4 operators in 3 forms; 14 literal expressions in 9 places; 12 further texts; any argument values; both optimisation levels.',
 'Expressions of three and more operators, equality of products of felts, division by a constant zero, felt division by zero.')
bprop('E02', 'Compiled branches, loops and assignments run as the source says',
 'A function made of assignments, shadowing, blocks, if/else chains, while, for and loop with break, continue and early return, nested in one another, returns what an interpreter of the source computes, for any arguments, with and without optimisations; this holds for felt and u32 variables and conditions.',
 ['inputs', 'programs'], 'all arguments of all pairs of statements in all surroundings',
 'Which value a variable has after a join depends on every path there; the tests have one program per construct.',
 [MI + 'lowering/', MI + 'ssa/', MI + 'passes/', CG + 'generator.rs'],
 [('SSA construction', MI + 'lowering/'), ('removal of phis', MI + 'passes/phi_elimination.rs'), ('branches', MI + 'passes/'), ('code', CG + 'generator.rs')],
 [EB('h_basic'), EB('h_stmts'), EB('h_stmts_u32')],
 'two of 15 (felt) or 12 (u32) statements in 7 surroundings (thorough: three statements, 9 surroundings); runs of up to 40 loop rounds and calls; any argument values; both optimisation levels.',
 'Loops that need more rounds, more than two nested loops.')
bprop('E03', 'Structs and tuples behave as values in compiled programs',
 'Reading, writing, copying, taking apart, passing and returning structs and tuples, nested in one another, in branches and loops, has the effect an interpreter of the source computes, for any contents, with and without optimisations: a copy does not change with its origin, an update changes the one field, and parameters do not change the caller\'s value.',
 ['inputs', 'programs'], 'all contents in all pairs of statements in the surroundings',
 'The generated code lets values share storage and updates them in place; whether that is seen depends on which values are still needed, which only combinations of statements show.',
 [MI + 'lowering/', MI + 'passes/sroa.rs', MI + 'passes/phi_elimination.rs', CG + 'generator.rs', CG + 'layout.rs'],
 [('scalar replacement', MI + 'passes/sroa.rs'), ('storage', CG + 'generator.rs'), ('layout', CG + 'layout.rs')],
 [EB('h_aggr'), EB('h_aggr_par')],
 'two of 15 (local) or 12 (parameters) statements in 4 surroundings (thorough: three statements, 9 surroundings), any contents; both optimisation levels.',
 'Deeper nesting than three levels.')
bprop('E04', 'Arrays and allocated cells hold what was stored at each index',
 'Arrays are accessed by constant and computed indices, passed to functions, aliased and filled from literals and repetitions, of felts, u32s and structs, and cells allocated with `new` are used through pointers: every read gives what was last stored at that index through any alias, no other cell changes, and allocations never overlap, with and without optimisations, for any contents and any index within the array.',
 ['inputs', 'programs'], 'all contents and indices in all pairs of statements in the surroundings',
 'Addresses are computed at run time from layouts known to the compiler; a wrong stride or a stale copy shows only for particular indices after particular stores.',
 [MI + 'lowering/', MI + 'passes/', CG + 'generator.rs', RN + 'vm/instructions/store.rs'],
 [('places, loads and stores', MI + 'lowering/expr.rs'), ('addresses', CG + 'generator.rs'), ('constant arrays', MI + 'passes/')],
 [EB('h_array'), EB('h_array_aggr'), EB('h_new')],
 'two of 12 (numbers) or 11 (structs) statements in 4 surroundings (thorough: three statements, 9 surroundings); arrays of 2 and 3 elements; up to 3 allocations of up to 3 elements; any contents and indices within bounds; both optimisation levels.',
 'Indices beyond the array (undefined), arrays in arrays.')
bprop('E05', 'Calls pass every argument and result and keep the caller\'s values',
 'Functions that call others, themselves and each other, with parameters and results of every type (felt, u32, bool, structs, tuples, arrays, nested), receive the values given, return the ones computed, and leave what the caller holds unchanged; each call of the source takes place once, in order, whether or not its result is used; this for any arguments, with and without optimisations.',
 ['inputs', 'programs'], 'all arguments of all combinations of parameter and result types',
 'The layout of frames depends on every type in a signature and on what is live across the call; the tests call with a few signatures.',
 [CG + 'generator.rs', CG + 'layout.rs', MI + 'lowering/expr.rs', RN + 'vm/'],
 [('calls', CG + 'generator.rs'), ('frames', CG + 'layout.rs'), ('call and return', RN + 'vm/instructions/')],
 [EB('h_call'), EB('h_recursion'), EB('h_effects', reach=['end', 'fault'])],
 'two parameters of 8 types each around a felt, 4 kinds of result, through two levels of calls; 11 texts of calls in calls and recursion of depth up to 12; two of 14 statements with calls for their effects among repeated expressions in 4 surroundings; any argument values; both optimisation levels.',
 'More than three parameters, pointers in signatures (E04).')

bprop('V02', 'Memory holds what was last written and logs every access',
 'After any sequence of reads, writes and u32 reads and writes, each cell holds what was last written to it or zero, a read gives that value or an error if the cell holds more than a felt, accesses beyond the 2^28 cells are errors that change nothing else, a u32 is read exactly if both cells hold 16 bits, and the log holds every access with its address and value once, in order; the log as bytes is that log.',
 ['histories', 'inputs'], 'all sequences of accesses within the bounds, any values',
 'The heap grows down from the top of memory in a second store; the cells where the two meet, and u32s across the end of memory, are not in the examples of the tests.',
 [RN + 'memory/mod.rs'],
 [('cells of both ends', RN + 'memory/mod.rs'), ('the log', RN + 'memory/mod.rs serialize_trace')],
 [EB('h_memory')],
 'up to 2 cells loaded, then 3 accesses of 6 kinds at 7 (thorough: 9) addresses at both ends of memory and beyond, any values.',
 'Running out of host memory for addresses in the middle.')
bprop('V03', 'The segments of a run put together are the run',
 'A program run with a limit on the steps per segment gives the states, accesses and memory of the run without limit: each segment starts in the state and with the memory the one before it left, has exactly its steps and their accesses in order, the last one ends at the end of the program; the trace files hold these, one beside the path given for each segment.',
 ['inputs', 'histories'], 'all limits, arguments and programs within the bounds',
 'Where the cut falls relative to calls, jumps and two-cell instructions depends on the limit; the tests use one or two limits.',
 [RN + 'vm/mod.rs', RN + 'vm/state.rs', RN + 'memory/mod.rs'],
 [('segments', RN + 'vm/mod.rs run'), ('files', RN + 'vm/mod.rs write_binary_trace')],
 [EB('h_run'), EB('h_trace_files')],
 '4 programs of up to 20 steps with loops, calls, jumps, two-cell instructions and heap accesses, with and without a constant after the code; limits of 1 to 9 (thorough: 16) steps; any argument and immediates; 7 folders and 5 names of files, absolute and relative.',
 'A limit of zero steps, which makes no progress and is not reachable from the command line.')
bprop('A01', 'Arguments and results cross the ABI unchanged',
 'Running a program on arguments of the types it declares gives them to it unchanged, and results come back as the values the program returned, for every type: felts, u32s, bools, tuples, structs, fixed-size arrays and pointers to arrays, nested in one another; the public program, input and output of the run are the cells of the code, arguments and results; arguments of other types, lengths, numbers or ranges and unknown entry points are errors and never panics.',
 ['inputs'], 'all values of all types within the bounds',
 'Arrays are placed before the frame and passed by address; which cells overlap depends on the order and nesting of types, where the tests have one case each.',
 [RN + 'lib.rs', CO + 'abi_codec.rs'],
 [('placing arguments', RN + 'lib.rs run_cairo_program'), ('encoding', CO + 'abi_codec.rs')],
 [EB('h_abi'), EB('h_abi_wrong', reach=['fits', 'rejected']), EB('h_felt_arg')],
 'one or two parameters of types nested twice, lists of up to 2 elements, any u32s; 8 types against 9 kinds of values with numbers at all limits and any u32; felts given as any residue plus 11 multiples of the prime.',
 'Recursive types; pointers given as numbers.')
bprop('A02', 'Arguments on the command line are read by one grammar',
 'A text is an argument exactly if it is, apart from white space, a decimal number from the 64-bit range, true, false, or a list in brackets, parentheses or braces of arguments separated by commas, and is then that value; every other text is an error and never a panic.',
 ['inputs'], 'all texts within the bounds',
 'The tests parse a dozen texts.',
 [CO + 'abi_codec.rs'],
 [('parser', CO + 'abi_codec.rs parse_cli_arg')],
 [EB('h_cli', reach=['value', 'none']), EB('h_cli_parts', reach=['value', 'none'])],
 'all ASCII texts of up to 5 (thorough: 6) characters; 3 (thorough: 4) of 17 parts in 3 surroundings, with numbers at the limits.',
 'Texts beyond ASCII.')
