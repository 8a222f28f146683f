#![allow(dead_code, clippy::all)]
mod fmt; mod flow; mod lex; mod literals; mod modules; mod names; mod project; mod refparse; mod sem; mod syntax; mod typing; mod util;
symrt::entry! {
    lex::h_lex_any, lex::h_lex_ops, lex::h_lex_num, lex::h_lex_suffix, lex::h_lex_words, lex::h_lex_comment,
    lex::h_lit_dec, lex::h_lit_hex, lex::h_lit_oct, lex::h_lit_bin, lex::h_lit_bad,
    syntax::h_prec_chain, syntax::h_prec_unary, syntax::h_prec_paren, syntax::h_tok_expr, syntax::h_tok_stmt, syntax::h_tok_type, syntax::h_tok_top,
    syntax::h_stmts, syntax::h_tok_edit, syntax::h_tindex, syntax::h_else, syntax::h_items, syntax::h_blanks, syntax::h_tight,
    fmt::h_fmt_op, fmt::h_fmt_unary, fmt::h_fmt_lit, fmt::h_fmt_items, fmt::h_fmt_parts, fmt::h_fmt_cond, fmt::h_fmt_stmts, fmt::h_fmt_for, fmt::h_fmt_toks, fmt::h_fmt_comments, fmt::h_fmt_inner,
    names::h_scopes, names::h_order, names::h_undeclared, names::h_dups, names::h_recursive, flow::h_flow, literals::h_range, literals::h_suffix, literals::h_sizes, literals::h_const_array, modules::h_mod_graph, modules::h_mod_use, modules::h_mod_types, modules::h_mod_names, modules::h_incr,
    project::h_proj_find, project::h_proj_files, project::h_proj_entry, project::h_proj_alone, project::h_proj_workspace,
    typing::h_typ_bin, typing::h_typ_bin2, typing::h_typ_place, typing::h_typ_un, typing::h_typ_lval, typing::h_typ_member, typing::h_typ_index, typing::h_typ_call, typing::h_typ_struct, typing::h_typ_array, typing::h_typ_cast, typing::h_typ_cond, typing::h_typ_const, typing::h_typ_pat, typing::h_typ_infer, typing::h_typ_new, typing::h_typ_same,
}
