SM = 'crates/compiler/semantic/src/'
prop('S01', 'Every expression and statement is typed by the rules',
 'A program is reported exactly where a type does not fit: operands of every operator, operand of ! and -, targets of assignments, fields, indices, calls, struct literals, arrays, tuples, casts, conditions, annotations of let and const, patterns, new, and returns. Well-typed programs are accepted without errors.',
 ['programs'], 'all programs over the listed forms and types',
 'The tests hold a few dozen accepted and rejected snippets; the type of each operand and place is one of many, and an error hides in one combination.',
 [SM + 'validation/type_validator.rs', SM + 'type_resolution.rs', SM + 'types.rs'], [('type rules for statements and expressions', SM + 'validation/type_validator.rs'), ('type of an expression', SM + 'type_resolution.rs expression_semantic_type'), ('compatibility of types', SM + 'type_resolution.rs are_types_compatible')],
 [E('h_typ_bin', reach=['rejected']), E('h_typ_bin2', reach=['rejected']), E('h_typ_place'), E('h_typ_un'), E('h_typ_lval'), E('h_typ_member'), E('h_typ_index', reach=['out of bounds']), E('h_typ_call'), E('h_typ_struct'), E('h_typ_array'), E('h_typ_cast'), E('h_typ_cond'), E('h_typ_const'), E('h_typ_pat'), E('h_typ_infer'), E('h_typ_same'), E('h_typ_new')],
 'every pair of 2 (thorough more) operand types and 14 operators, places of the result, all listed statement forms, 12 types including structs, tuples, pointers and arrays; nested operands 2 deep.',
 'types nested deeper; more operands at once; the wording of the messages.')
prop('S02', 'Names mean the innermost earlier definition',
 'A name refers to the closest definition before it in the enclosing blocks, in source order with shadowing; items can be used in any order; names that are not declared, and only those, are reported; variables that are never used, and only those, are reported as unused.',
 ['programs'], 'all programs over the listed statements',
 'The tests check a few scopes; whether a block leaks or a redefinition is seen too early depends on the order and nesting of the statements.',
 [SM + 'semantic_index.rs', SM + 'validation/scope_check.rs', SM + 'place.rs', SM + 'definition.rs'], [('scopes, definitions and uses', SM + 'semantic_index.rs'), ('undeclared and unused names', SM + 'validation/scope_check.rs')],
 [E('h_scopes'), E('h_order'), E('h_undeclared', reach=['known name', 'unknown name']), E('h_recursive', reach=['circle', 'rejected'])],
 'every sequence of 3 (4) steps from 14 (definitions, uses, shadowing, blocks, if, else, loop, for, tuple patterns) in a function with and without a top-level definition of the same name; all orders of 5 dependent items; names of one or two arbitrary letters in 34 places of a value and 8 of a type; 3 structs that refer to each other in all ways.',
 'longer functions; several functions at once.')
prop('S03', 'A function that returns a value returns one on every path',
 'A function with a return type is rejected if and only if some path through it reaches its end without a return; statements after a return, break or continue, and only those, are reported as unreachable.',
 ['programs'], 'all statement trees within the bounds',
 'The tests hold two dozen shapes of control flow; a wrong case of if, loop, break or nesting needs its own shape.',
 [SM + 'validation/control_flow_validator.rs'], [('paths through blocks', SM + 'validation/control_flow_validator.rs')],
 [E('h_flow', reach=['missing return', 'returns'])],
 'all trees of statements of the harness grammar (let, return, break, continue, block, if, if-else, loop, while, for) up to its size bound.',
 'bigger functions; loops whose condition is constant.')
prop('S04', 'Literals fit their types, indices and sizes their arrays',
 'A number literal is accepted if and only if it fits its type (felt: at most 2^31-1; u32: at most 2^32-1), a negated literal is not a felt or u32 value of an annotated let or const, a suffix decides the type of a literal, a constant index is accepted if and only if it lies within its array, and an array only where its size is that of its place; a constant array is not used where a reference to it would be needed (arguments, elements, fields, returns).',
 ['inputs', 'programs'], 'all literal values',
 'The tests take one or two values; the boundaries depend on base, sign, suffix and place.',
 [SM + 'validation/literal_validator.rs', SM + 'validation/type_validator.rs'], [('range of literals', SM + 'validation/literal_validator.rs'), ('constant indices', SM + 'validation/type_validator.rs')],
 [E('h_range', reach=['in range', 'out of range']), E('h_suffix'), E('h_sizes', reach=['in bounds', 'out of bounds']), E('h_const_array')],
 'literals of arbitrary digits around every boundary, plain and negated, in 3 bases, with and without suffix, in lets, consts, operands, arguments and returns; array sizes and indices.',
 'parenthesised constant indices (not checked by the compiler).')
prop('S05', 'Names are unique where they have to be',
 'Two items of a module, two parameters of a function, two fields of a struct, two names of a pattern or two fields of a struct literal with the same name are reported, and different names are not.',
 ['programs'], 'all triples of names',
 'The tests repeat one name in one place each.',
 [SM + 'validation/scope_check.rs', SM + 'validation/structural_validator.rs', SM + 'validation/type_validator.rs'], [('duplicates', SM + 'validation/scope_check.rs, structural_validator.rs')],
 [E('h_dups', reach=['duplicate', 'distinct'])],
 'every triple of names from three letters in 8 kinds of places, nested patterns and blocks included.',
 'longer lists.')
prop('S06', 'Imports bring in exactly what they name',
 'A `use` of an item that exists in a module of the crate makes it, and nothing else, available with its own type; a use of an unknown module or item is reported at the use; import cycles are reported; each error of each module is reported once.',
 ['programs', 'configurations'], 'all import graphs within the bounds',
 'The tests import between two or three modules; cycles, diamonds and shadowing need other graphs.',
 [SM + 'db.rs', SM + 'semantic_index.rs', SM + 'type_resolution.rs', SM + 'validation'], [('modules of a crate', SM + 'db.rs'), ('import cycles', SM + 'db.rs'), ('types of imported items', SM + 'type_resolution.rs')],
 [E('h_mod_graph', reach=['cycle', 'no cycle']), E('h_mod_use'), E('h_mod_types'), E('h_mod_names')],
 'all graphs of imports over three modules; uses of structs, functions and consts of an imported module, in types, calls and values, with local definitions of the same name.',
 'crates of more modules; re-exports.')
prop('S07', 'Incremental diagnostics equal those of a fresh analysis',
 'After any sequence of edits of modules, the diagnostics computed incrementally (with the delta cache) are those that a fresh analysis of the same texts gives.',
 ['histories'], 'all edit histories within the bounds',
 'The tests make one or two edits; a stale entry needs a certain sequence of edits, removals and dependencies.',
 [SM + 'delta_diagnostics.rs', SM + 'db.rs'], [('cache of diagnostics per module', SM + 'delta_diagnostics.rs')],
 [E('h_incr', reach=['edited'])],
 'sequences of edits, additions and removals of two or three modules with dependencies between them.',
 'longer histories; concurrent queries.')
