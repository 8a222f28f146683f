LEX = 'crates/compiler/parser/src/lexer.rs'; PAR = 'crates/compiler/parser/src/parser.rs'
prop('L01', 'Numeric literals mean exactly what is written, or are reported',
 'A number written in decimal, hexadecimal, octal or binary, with or without a felt/u32 suffix, enters the program with exactly its written value and suffix. A number that is malformed, has an unknown suffix or exceeds the 64-bit literal range is reported as an error; no value is ever truncated, wrapped or silently dropped.',
 ['inputs'], 'all digit strings, bases and suffixes',
 'The tests try some thirty literals; a wrong digit, base, suffix split or overflow shows only for particular digits and lengths.',
 [LEX, PAR], [('number scanning and base/suffix split', LEX + ' parse_number_literal'), ('literal atom and suffix validation', PAR + ' expression_parser')],
 [E('h_lit_dec', reach=['accepted', 'rejected']), E('h_lit_hex', reach=['accepted', 'rejected']), E('h_lit_oct', reach=['accepted', 'rejected']), E('h_lit_bin', reach=['accepted', 'rejected']), E('h_lit_bad', reach=['accepted', 'rejected'])],
 'literals of 1-21 decimal, 1-17 hex, 1-22 octal, 1-65 binary digits with any window of 3 (4 thorough) adjacent decimal/octal digits, 1 (2) hex digit, 4 (8) bits symbolic around boundary frames; 3-4 arbitrary alphanumeric characters before each of 5 suffixes.',
 'literals whose digits are all arbitrary beyond 4 places at once; non-ASCII text.')
prop('L02', 'Scanning covers the text with longest tokens and reports the rest',
 'Every text is cut, left to right, into the longest tokens of the language; blanks and line comments separate tokens and mean nothing, keywords are recognised exactly and every other word is an identifier with its own text. A character outside the language is reported at its place instead of being skipped, and nothing between two tokens is lost.',
 ['inputs'], 'all source texts',
 'Tests scan a dozen fixed lines; maximal munch, keyword boundaries and comment ends depend on every pair of neighbouring characters.',
 [LEX], [('token definitions', LEX + ' TokenType')],
 [E('h_lex_any'), E('h_lex_ops'), E('h_lex_num'), E('h_lex_suffix'), E('h_lex_words'), E('h_lex_comment')],
 'texts of 2 (3 thorough) arbitrary ASCII bytes; 3 (4) operator bytes; 5 (6) bytes over the number alphabet; every keyword with one arbitrary byte inserted or replaced; comments with 2 (3) arbitrary bytes.',
 'longer arbitrary texts; non-ASCII bytes.')
prop('L03', 'Operators group by the documented precedence and associativity',
 'Any combination of binary, prefix, postfix and cast operators parses to the tree given by the documented precedence levels, binary operators of one level grouping to the left. Parentheses, call arguments, indexes and array or tuple brackets override that grouping and nothing else does.',
 ['programs'], 'all operator combinations',
 'A grouping error shows only for particular pairs or triples of neighbouring operators; snapshots pin a few chains.',
 [PAR], [('precedence tiers', PAR + ' expression_parser')],
 [E('h_prec_chain'), E('h_prec_unary'), E('h_prec_paren')],
 'chains of 3 (4 thorough) arbitrary binary operators; two prefix, two postfix operators and up to two casts around any binary operator; six parenthesised shapes with three arbitrary operators each.',
 'longer chains; identifiers other than the ones used.', 'Known finding: && and || share a level (pinned by an existing snapshot).')
prop('L04', 'A text is accepted exactly when it fits the grammar, with its tree',
 'The parser never crashes: every text either yields the syntax tree the grammar assigns to it and no diagnostic, or no tree and at least one diagnostic pointing inside the text. Every node of a tree lies within the text and within its parent, and an else belongs to the nearest if.',
 ['inputs', 'programs'], 'all source texts',
 'The test-suite snapshots a fixed list of programs; acceptance, tree shape and positions have to hold for every token sequence.',
 [PAR], [('item, statement, type and expression parsers', PAR), ('error conversion', PAR + ' parse_file')],
 [E('h_tok_expr', reach=['accepted', 'rejected']), E('h_tok_stmt', reach=['accepted', 'rejected']), E('h_tok_type', reach=['accepted', 'rejected']), E('h_tok_top', reach=['accepted', 'rejected']), E('h_tok_edit', reach=['accepted', 'rejected']), E('h_tindex', reach=['accepted', 'rejected']), E('h_stmts'), E('h_else'), E('h_items')],
 'every sequence of 2 (3 thorough) tokens out of 47 at each of 25 places of a program; statement templates nested 2 (3) deep; all pairs of items from 40 forms.',
 'longer arbitrary token sequences; deeper nesting.', 'Known findings: conditions starting with a parenthesis, and `x {}` after if/while.')
prop('L05', 'Blanks, line breaks and comments never change the program',
 'Adding, removing or changing blanks, line breaks and line comments between tokens leaves the syntax tree unchanged.',
 ['inputs'], 'all layouts of all programs',
 'Tests parse each program in one layout; a comment ending early or a token glued to its neighbour needs a specific layout.',
 [LEX, PAR], [('skipped patterns', LEX + ' TokenType')],
 [E('h_blanks'), E('h_tight')],
 'four programs covering all token kinds; at every gap, one or two arbitrary blank characters, or a comment of two arbitrary ASCII characters; all gaps removed.',
 'several changed gaps at once.')
