//! L03-L05: the parser against an independent reference parser.
use crate::refparse::*;
use crate::util::*;

/// two bytes spelling one of the binary operators (the second may be a blank)
pub const BIN: [&[u8; 2]; 16] = [b"+ ", b"- ", b"* ", b"/ ", b"% ", b"==", b"!=", b"< ", b"> ", b"<=", b">=", b"&&", b"||", b"& ", b"| ", b"^ "];
pub fn op() -> Vec<u8> { let a = u8("op"); let b = u8("op"); let mut ok = false; for x in BIN { ok |= (a == x[0]) & (b == x[1]); } assume(ok); vec![b' ', a, b, b' '] }
fn cat(v: &[&[u8]]) -> Vec<u8> { v.concat() }
fn expr_text(e: &[u8]) -> String { text(cat(&[b"const X = ", e, b";"])) }

/// a op b op c op d: all operators
pub fn h_prec_chain() {
    let mut e = b"a".to_vec();
    for x in 0..tier(3, 4) { e.extend(op()); e.push(b'b' + x as u8); }
    check(agree(&expr_text(&e)), "a chain of binary operators is an expression"); reach("end");
}
/// prefix operators, postfix operators and casts around binary operators
pub fn h_prec_unary() {
    let mut e = vec![];
    for _ in 0..2 { e.extend(pick("u", &["", "!", "-"]).bytes()) }
    e.push(b'a');
    e.extend(pick("p", &["", ".f", "[i]", "(q)", ".0", "()"]).bytes()); e.extend(pick("p", &["", ".g", "[j]", "(r, s)"]).bytes());
    e.extend(pick("c", &["", " as felt", " as u32 as felt"]).bytes());
    e.extend(op());
    e.extend(pick("r", &["b", "-b", "b as felt"]).bytes());
    check(agree(&expr_text(&e)), "prefix, postfix and cast operators form an expression"); reach("end");
}
/// parentheses override precedence
pub fn h_prec_paren() {
    let (o1, o2, o3) = (op(), op(), op());
    let e = match choose("shape", 6) {
        0 => cat(&[b"(a", &o1, b"b)", &o2, b"c", &o3, b"d"]),
        1 => cat(&[b"a", &o1, b"(b", &o2, b"c)", &o3, b"d"]),
        2 => cat(&[b"a", &o1, b"(b", &o2, b"(c", &o3, b"d))"]),
        3 => cat(&[b"-(a", &o1, b"b)", &o2, b"!(c", &o3, b"d).x"]),
        4 => cat(&[b"f(a", &o1, b"b, c", &o2, b"d)", &o3, b"g[h]"]),
        _ => cat(&[b"[a", &o1, b"b][c", &o2, b"d]", &o3, b"(e, f).0"]),
    };
    check(agree_spans(&expr_text(&e)), "parenthesised operators form an expression"); reach("end");
}
pub const TOK: [&str; 47] = ["a", "b", "1", "2u32", "true", "felt", "!", "&&", "||", "&", "^", "==", "<", "+", "-", "*", "/", "=", "->", "(", ")", "{", "}", "[", "]", ",", ";", ":", "::", ".", "as", "const", "else", "fn", "if", "let", "new", "return", "struct", "while", "loop", "for", "in", "break", "continue", "use", "#"];
/// every sequence of tokens at several places of a program
fn toks(pre: &str, post: &str, n: usize) { let mut s = pre.to_string(); for _ in 0..n { s.push(' '); s.push_str(pick("t", &TOK)); } s.push(' '); s.push_str(post); if agree_spans(&s) { reach("accepted") } else { reach("rejected") } }
pub fn h_tok_expr() { let (a, b) = pick("ctx", &[("const X = ", ";"), ("const X = a", ";"), ("const X = f(", ");"), ("const X = [", "];")]); toks(a, b, tier(2, 3)); }
pub fn h_tok_stmt() { let (a, b) = pick("ctx", &[("fn f() {", "}"), ("fn f() { let a", "; }"), ("fn f() { if a { x; }", "}"), ("fn f() { while a", "{ x; } }"), ("fn f() { for (", "{ x; } }"), ("fn f() { return", "; }"), ("fn f() { a = b", "}")]); toks(a, b, tier(2, 3)); }
pub fn h_tok_type() { let (a, b) = pick("ctx", &[("fn f(a:", ") {}"), ("fn f() ->", "{}"), ("struct S { a:", "}"), ("const X:", "= 1;"), ("struct S {", "}"), ("fn f(", ") {}"), ("const X = new", "[1];")]); toks(a, b, tier(2, 3)); }
pub fn h_tok_top() { let (a, b) = pick("ctx", &[("", ""), ("use", ";"), ("use a::", ";"), ("use a::{", "};"), ("const X = 1;", ""), ("fn", "() {}"), ("struct", "{}")]); toks(a, b, tier(2, 3)); }

/// programs with one token removed, replaced or inserted anywhere
pub fn h_tok_edit() {
    let src = SRC[choose("src", SRC.len())]; let at = choose("at", src.len() + 1); let how = choose("how", tier(2, 3)); if at == src.len() && how > 0 { return }
    let mut v: Vec<&str> = src.to_vec(); if how == 2 { v.remove(at); if at < v.len() { v.remove(at); } }
    else { let t = pick("t", &TOK); if how == 0 { v.insert(at, t) } else { if t == "#" { v.remove(at); } else { v[at] = t } } }
    if agree_spans(&v.join(" ")) { reach("accepted") } else { reach("rejected") }
}
/// elements of tuples by any number
pub fn h_tindex() {
    let (pre, n) = pick("prefix", &[("", 1), ("", 2), ("429496729", 1), ("1844674407370955", 4), ("0x1000000", 2), ("0x1000000000000000", 1), ("9223372036854775", 3)]); let hex = pre.starts_with("0x"); let mut d = pre.as_bytes().to_vec();
    for _ in 0..n { d.push(byte_in("d", if hex { b"0123456789abcdef" } else { b"0123456789" })); }
    let s = text(cat(&[b"const X = ", pick("o", &["a", "f(1).x", "(1, 2)"]).as_bytes(), b".", &d, pick("s", &["", "felt", ".1", "[0]"]).as_bytes(), b";"])); if agree_spans(&s) { reach("accepted") } else { reach("rejected") }
}

// ---- statements built from templates
pub const E: [&str; 8] = ["a", "f(a, 1)", "a + 1 * b", "(a, b)", "S { x: 1, y: a }", "[1, 2]", "(a)", "new felt[3]"];
pub const C: [&str; 6] = ["a", "(a == 1)", "(a) == 1", "f(a)", "(a + 1) * 2 == b", "!(a)"];
fn c(d: usize) -> &'static str { if d > 1 { pick("c", &C[..2]) } else { pick("c", &C) } }
fn e(d: usize) -> &'static str { if d == 0 { pick("e", &E[..3]) } else { pick("e", &E) } }
pub fn stmt(d: usize) -> String {
    let k = choose("s", if d > 0 { 14 } else { 8 });
    match k {
        0 => format!("x = {};", e(d)), 1 => format!("let x = {};", e(d)), 2 => "let (p, q): (felt, u32) = t;".into(), 3 => "return;".into(),
        4 => "return a + 1;".into(), 5 => "g();".into(), 6 => "break;".into(), 7 => "const K: felt = 2;".into(),
        8 => format!("if {} {{ {} }}", c(d), stmt(d - 1)),
        9 => format!("if {} {{ {} }} else {{ {} }}", c(d), stmt(d - 1), "z = 1;"),
        10 => format!("if a {{ y = 1; }} else if {} {{ {} }} else {{ w = 2; }}", c(d), stmt(d - 1)),
        11 => format!("while {} {{ {} continue; }}", c(d), stmt(d - 1)),
        12 => format!("loop {{ {} {{ }} }}", stmt(d - 1)),
        _ => format!("for ({} i < 3; {}) {{ {} }}", pick("i", &["let i = 0;", "i = 0;", "i;"]), pick("st", &["i = i + 1", "f(i)"]), stmt(d - 1)),
    }
}
pub fn h_stmts() { let s = format!("fn f(a: felt, b: [u32; 4]) -> (felt, bool) {{ {} {} }}", stmt(tier(2, 3)), pick("last", &["return a;", "{}"])); check(agree_spans(&s), "statements parse"); reach("end"); }
/// an `else` belongs to the nearest `if`
pub fn h_else() {
    let c = pick("c", &["a", "(a)"]); let d = pick("d", &["b", "(b)"]);
    let s = match choose("shape", 5) {
        0 => format!("if {c} if {d} x = 1; else x = 2;"), 1 => format!("if {c} {{ if {d} x = 1; }} else x = 2;"), 2 => format!("if {c} while {d} if e x = 1; else x = 2;"),
        3 => format!("if {c} if {d} x = 1; else x = 2; else x = 3;"), _ => format!("if {c} loop if {d} break; else x = 2;"),
    };
    check(agree_spans(&format!("fn f() {{ {s} return; }}")), "statements parse"); reach("end");
}
pub fn h_items() {
    let mut s = String::new();
    for _ in 0..2 {
        s.push_str(&match choose("item", 7) {
            0 => format!("use {};", pick("u", &["m::x", "m::n::x", "m::{x, y}", "m::n::{x}", "x", "m::{x,}", "m::{}"])),
            1 => format!("struct S {{ {} }}", pick("f", &["", "a: felt", "a: felt, b: [u32; 3]", "a: (felt, S*), ", "a: felt**"])),
            2 => format!("const K{} = {};", pick("t", &["", ": u32", ": (felt, bool)", ": [felt; 2]"]), pick("e", &E)),
            3 => format!("fn f({}){} {{}}", pick("p", &["", "a: felt", "a: felt, b: (u32, felt,)", "a: T*,"]), pick("r", &["", " -> felt", " -> ()", " -> (felt, u32)", " -> (felt,)", " -> (felt)"])),
            _ => "fn g() { return; }".into(),
        });
    }
    check(agree_spans(&s), "items parse"); reach("end");
}

// ---- L05: blanks and comments between tokens do not matter
pub const SRC: [&[&str]; 4] = [
    &["use", "m", "::", "{", "x", ",", "y", "}", ";", "struct", "S", "{", "a", ":", "felt", ",", "b", ":", "(", "u32", ",", "bool", ")", "}"],
    &["fn", "f", "(", "a", ":", "felt", "*", ",", "b", ":", "[", "u32", ";", "4", "]", ")", "->", "felt", "{", "return", "-", "a", "[", "0", "]", "+", "b", ".", "x", "as", "felt", ";", "}"],
    &["fn", "f", "(", ")", "{", "let", "(", "x", ",", "y", ")", ":", "(", "felt", ",", "u32", ")", "=", "(", "1", ",", "2u32", ")", ";", "if", "x", "==", "1", "&&", "!", "y", "{", "x", "=", "2", ";", "}", "else", "{", "return", ";", "}", "}"],
    &["const", "K", ":", "u32", "=", "0xff", "/", "2", "-", "(", "3", "%", "a", ")", ";", "fn", "g", "(", ")", "{", "for", "(", "let", "i", "=", "0", ";", "i", "<", "3", ";", "i", "=", "i", "+", "1", ")", "{", "f", "(", "i", ",", "S", "{", "a", ":", "i", "}", ")", ";", "}", "loop", "{", "break", ";", "}", "}"],
];
fn blank() -> u8 { let b = u8("ws"); assume((b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r')); b }
/// something that separates tokens and means nothing
fn sep() -> Vec<u8> {
    match choose("sep", 4) {
        0 => vec![blank()], 1 => vec![blank(), blank()],
        2 => { let mut v = b" //".to_vec(); for _ in 0..2 { let b = u8("c"); assume((b < 128) & (b != b'\n')); v.push(b) } v.push(b'\n'); v }
        _ => b"\t// fn { \" /* ; \r\n".to_vec(),
    }
}
pub fn h_blanks() {
    let src = SRC[choose("src", SRC.len())];
    let plain = src.join(" ");
    let at = choose("at", src.len() + 1);
    let mut v = vec![];
    for (i, t) in src.iter().enumerate() { if i == at { v.extend(sep()) } else if i > 0 { v.push(b' ') } v.extend(t.bytes()) }
    if at == src.len() { v.extend(sep()) }
    let (a, b) = (parse(&plain), parse(&text(v)));
    check(a.diagnostics.is_empty() & b.diagnostics.is_empty(), "both texts are accepted");
    check(a.module.items().to_vec().same(&b.module.items().to_vec()), "blanks and comments do not change the tree"); reach("end");
}
/// punctuation needs no blanks around it
pub fn h_tight() {
    let src = SRC[choose("src", SRC.len())];
    let mut s = String::new();
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    for t in src { if let Some(l) = s.bytes().last() { if w(l) && w(t.as_bytes()[0]) { s.push(' ') } } s.push_str(t) }
    let (a, b) = (parse(&src.join(" ")), parse(&s));
    check(a.diagnostics.is_empty() & b.diagnostics.is_empty(), "both texts are accepted");
    check(a.module.items().to_vec().same(&b.module.items().to_vec()), "blanks around punctuation do not change the tree"); reach("end");
}
