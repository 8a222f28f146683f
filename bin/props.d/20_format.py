FM = 'crates/compiler/formatter/src/'
prop('F01', 'Formatting never changes the program',
 'The formatted text of a valid program is accepted by the parser and has the same syntax tree: every item, type annotation, literal value, tuple, parenthesis that matters, block and statement is still there and in the same order, at any line width.',
 ['programs'], 'all valid programs and widths',
 'The tests format a dozen snippets; a rule that drops or regroups something needs the particular construct, nesting or width.',
 [FM + 'rules', FM + 'doc.rs', FM + 'api.rs'], [('printing rules per syntax node', FM + 'rules/*.rs'), ('layout of groups and indents', FM + 'doc.rs Renderer')],
 [E('h_fmt_op'), E('h_fmt_unary'), E('h_fmt_lit', reach=['accepted', 'rejected']), E('h_fmt_items'), E('h_fmt_parts', reach=['accepted']), E('h_fmt_cond', reach=['accepted']), E('h_fmt_stmts', reach=['accepted']), E('h_fmt_for', reach=['accepted'])],
 'expressions with two arbitrary binary operators at two widths; literals with 2 (3 thorough) arbitrary digits per base and suffix; pairs of items from 22 forms; 8 types x 15 expressions x places; conditions x bodies x else forms; statements nested 1 (2) deep; all for-loop forms.',
 'longer programs; widths other than 16 and 100; the trailing_comma, indent and newline options.')
prop('F02', 'Formatting is idempotent and leaves invalid text alone',
 'Formatting already formatted text changes nothing. A text the parser rejects is returned byte for byte.',
 ['inputs', 'programs'], 'all texts',
 'One test formats one program twice; whether a second pass moves something depends on the construct, the width and the comments.',
 [FM + 'api.rs', FM + 'rules', FM + 'comment_attachment.rs'], [('entry point and error case', FM + 'api.rs format_source_file')],
 [E('h_fmt_toks', reach=['accepted', 'rejected']), E('h_fmt_op'), E('h_fmt_cond', reach=['accepted']), E('h_fmt_stmts', reach=['accepted']), E('h_fmt_comments')],
 'every sequence of 2 (3) tokens of 47 at five places of a program; the texts of F01 and F03.',
 'longer arbitrary token sequences.')
prop('F03', 'Comments survive formatting, once and in order',
 'Every comment of a valid program, wherever it stands, appears exactly once in the formatted text with its own words and in the original order, and never swallows code.',
 ['programs'], 'all placements of comments',
 'Three tests place five comments; whether one is lost or doubled depends on where it stands relative to every kind of node, on blank lines and on the line ends.',
 [FM + 'comment_attachment.rs', FM + 'trivia.rs', FM + 'simple_comment_preserver.rs'], [('attachment of comments to nodes', FM + 'comment_attachment.rs'), ('comments before the first item', FM + 'simple_comment_preserver.rs')],
 [E('h_fmt_comments'), E('h_fmt_inner')],
 'four programs with nested blocks, blank lines and several items; two (three thorough) comments with an arbitrary character at any line start or line end, LF or CRLF; one comment of arbitrary character between any two tokens of four programs.',
 'more comments at once; comment markers inside strings (the language has none).')
