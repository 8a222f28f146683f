//! F01-F04: the formatter.
use crate::syntax::*;
use crate::util::*;
use cairo_m_formatter::{format_source_file, FormatterConfig};

fn fmt(t: &str, width: usize) -> String {
    let db = ParserDatabaseImpl::default();
    let f = SourceFile::new(&db, t.to_string(), "t.cm".to_string());
    let mut c = FormatterConfig::default(); c.max_width = width;
    format_source_file(&db, f, &c)
}
/// formats and checks meaning and idempotence; whether the text was a program
fn whole(t: &str, width: usize) -> bool {
    let a = parse(t); let o = fmt(t, width); note(t);
    if !a.diagnostics.is_empty() { check(o == t, "a text with errors is left alone"); return false }
    note(&o);
    let b = parse(&o);
    check(b.diagnostics.is_empty(), "the formatted text is accepted");
    check(a.module.items().to_vec().same(&b.module.items().to_vec()), "the formatted text has the same tree");
    check(fmt(&o, width) == o, "formatting twice changes nothing more");
    true
}
fn width() -> usize { pick("w", &[100, 16]) }
pub fn h_fmt_op() {
    let mut e = pick("u", &["a", "!-a", "-(a)", "a.f[i].0(q)", "[1u32; 3][0]"][..tier(2, 5)]).as_bytes().to_vec();
    for _ in 0..2 { e.extend(op()); e.extend(pick("r", &["b", "-b as felt", "(b, c)"]).bytes()); }
    let s = text([b"const X = ".as_slice(), &e, b";"].concat());
    check(whole(&s, width()), "an expression with operators is accepted"); reach("end");
}
/// prefix operators and parentheses in any order
pub fn h_fmt_unary() {
    let (mut a, mut z) = (String::new(), String::new()); for _ in 0..tier(4, 6) { match choose("u", 4) { 0 => a.push('-'), 1 => a.push('!'), 2 => { a.push('('); z.insert_str(0, pick("post", &[")", ").x", ") as felt", ") + 1"])) } _ => () } }
    let s = format!("const X = {a}{}{z};", pick("a", &["a", "1", "a as u32", "f(-a)"])); if whole(&s, 100) { reach("end") }
}
pub fn h_fmt_lit() {
    let d = bytes("d", tier(2, 3), |b| b.is_ascii_digit());
    let s = text([b"const X = ".as_slice(), pick("b", &["0o1", "1", "0x", "0b", "0o7"]).as_bytes(), &d, pick("s", &["", "felt", "u32", "u8"]).as_bytes(), b";"].concat());
    if whole(&s, 100) { reach("accepted") } else { reach("rejected") }
}
const T: [&str; 8] = ["felt", "u32", "S", "felt*", "(felt, bool)", "(u32,)", "[u32; 4]", "(felt*)*"];
const X: [&str; 15] = ["a", "f(a, 1)", "f()", "(a, b)", "(a,)", "S { x: 1, y: a }", "S {}", "[1, 2]", "[a]", "[]", "[a; 2]", "(a)", "((a, 1))", "new felt[3]", "a as u32"];
pub fn h_fmt_items() {
    let mut s = String::new();
    for _ in 0..2 {
        s.push_str(&match choose("item", 5) {
            0 => format!("use {};", pick("u", &["m::x", "m::n::x", "m::{x, y}", "m::n::{x}", "x", "m::{x,}", "m::{}"])),
            1 => format!("struct S {{ {} }}", pick("f", &["", "a: felt", "a: felt, b: [u32; 3],"])),
            2 => format!("const K{} = 1;", pick("t", &["", ": u32", ": (felt, bool)"])),
            3 => format!("fn f({}){} {{}}", pick("p", &["", "a: felt", "a: T*, b: (u32, felt,)"]), pick("r", &["", " -> felt", " -> ()"])),
            _ => "fn g() { return; }".into(),
        });
    }
    check(whole(&s, 100), "items are accepted"); reach("end");
}
pub fn h_fmt_parts() {
    let t = pick("t", &T);
    let s = match choose("shape", 4) {
        0 => format!("fn f(a: {t}) -> {t} {{ let x: {t} = {}; }}", pick("x", &X)),
        1 => format!("struct S {{ a: {t}, b: [{t}; 3] }}"),
        2 => format!("const K: {t} = {};", pick("x", &X)),
        _ => format!("fn f() {{ let {} = {} + x as {t}; {} = 1; }}", pick("p", &["x", "(x, y)", "(x, (y, z))"]), pick("x", &X), pick("l", &["a", "a.b", "a[0]", "(a).b[i + 1].0"])),
    };
    if whole(&s, 100) { reach("accepted") } else { reach("rejected") }
}
pub fn h_fmt_cond() {
    let s = format!("fn f() {{ {} ({}) {}{} }}", pick("k", &["if", "while"]), pick("c", &["a", "(a)", "a == b", "S { x: 1 } == b", "(a, b)", "a.b", "a[0]", "-a", "!b == c", "(a) && b", "f(a)", "(a)(b).c[d].0 as felt", "a as felt", "S {}", "a + S {}"]),
        pick("b", &["{}", "{ x; }", "{ {} }", "x;", "if (b) {}", "loop {}"]), pick("e", &["", " else {}", " else { y; }", " else if (z) {}"]));
    if whole(&s, 100) { reach("accepted") } else { reach("rejected") }
}
pub fn h_fmt_stmts() { let s = format!("fn f(a: felt) -> felt {{ {} {} }}", stmt(tier(1, 2)), pick("last", &["return a;", "{}"])); if whole(&s, width()) { reach("accepted") } else { reach("rejected") } }
pub fn h_fmt_for() {
    let s = format!("fn f() {{ for ({} {}; {}) {} }}", pick("i", &["let i: u32 = 0;", "i = 0;", "let (i, j) = t;", "g();", "const K = 1;"]), pick("c", &["i < 3", "(i) < 3", "a"]), pick("st", &["i = i + 1", "f(i)", "i", "a[0] = 1"]), pick("b", &["{}", "{ x; {} }", "x;", "for (i; a; i) {}"]));
    if whole(&s, 100) { reach("accepted") } else { reach("rejected") }
}
pub fn h_fmt_toks() {
    let (a, b) = pick("ctx", &[("", ""), ("const X = ", ";"), ("fn f() {", "}"), ("fn f() -> felt { if (x", ") { y; } }"), ("struct S { a: ", "}")]);
    let mut s = a.to_string(); for _ in 0..tier(2, 3) { s.push(' '); s.push_str(pick("t", &TOK)); } s.push(' '); s.push_str(b);
    if whole(&s, 100) { reach("accepted") } else { reach("rejected") }
}
// ---- comments
/// all text of comments, without slashes and blanks
fn comments(t: &str) -> Vec<u8> {
    let mut v = vec![]; let mut i = 0; let b = t.as_bytes();
    while i < b.len() { if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' { while i < b.len() && b[i] != b'\n' { if b[i] > b' ' && b[i] != b'/' { v.push(b[i]) } i += 1; } } else { i += 1 } }
    v
}
/// lines of programs; a comment may stand on a line of its own before each line, or at the end of each line
const L: [&[&str]; 4] = [
    &["use m::x;", "const A = 1;", "struct S { a: felt }", "fn f() { return; }"],
    &["fn f(a: felt) -> felt {", "let x = 1;", "if a == x {", "g();", "return x;", "}", "x = 2;", "return a;", "}", "fn g() { return; }"],
    &["fn f() {", "while a == 1 {", "loop {", "break;", "}", "}", "for (let i = 0; i < 3; i = i + 1) {", "{", "x = 1;", "}", "}", "return;", "}"],
    &["const B: felt = 2; const C: felt = 3;", "", "fn h() -> (felt, u32) {", "let a = 1; let b = 2;", "", "return (a, b);", "", "}", ""],
];
fn ctext(n: usize) -> Vec<u8> { let mut v = b"//".to_vec(); for _ in 0..n { let b = u8("c"); assume((b < 127) & (b >= b' ')); v.push(b) } v }
fn commented(src: &[&str], n: usize) -> Vec<u8> {
    let at: Vec<usize> = (0..n).map(|_| choose("at", 2 * src.len() + 1)).collect();
    for w in at.windows(2) { assume(w[0] <= w[1]) }
    let nl = pick("nl", &["\n", "\r\n"]);
    let mut v = vec![];
    for (i, l) in src.iter().enumerate() {
        for a in &at { if *a == 2 * i { v.extend(ctext(1)); v.extend(nl.bytes()) } }
        v.extend(l.bytes());
        if at.contains(&(2 * i + 1)) { v.push(b' '); v.extend(ctext(1)) }
        v.extend(nl.bytes());
    }
    for a in &at { if *a == 2 * src.len() { v.extend(ctext(1)); v.extend(nl.bytes()) } }
    v
}
fn kept(t: &str) {
    let a = parse(t); let o = fmt(t, 100); note(t); note(&o);
    check(a.diagnostics.is_empty(), "a program with comments is accepted");
    let b = parse(&o);
    check(b.diagnostics.is_empty(), "the formatted text is accepted");
    check(a.module.items().to_vec().same(&b.module.items().to_vec()), "the formatted text has the same tree");
    check(comments(t) == comments(&o), "every comment is kept, once and in order");
    check(fmt(&o, 100) == o, "formatting twice changes nothing more");
}
pub fn h_fmt_comments() { let src = L[choose("src", L.len())]; kept(&text(commented(src, tier(2, 3)))); reach("end"); }
/// comments anywhere between tokens
pub fn h_fmt_inner() {
    let src = SRC[choose("src", SRC.len())]; let at = choose("at", src.len() + 1);
    let mut v = vec![];
    for (i, t) in src.iter().enumerate() { if i == at { v.extend(b" //x"); v.extend(ctext(1)); v.push(b'\n') } else { v.push(b' ') } v.extend(t.bytes()) }
    if at == src.len() { v.extend(b" //y\n") }
    kept(&text(v)); reach("end");
}
