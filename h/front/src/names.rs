//! S02: names and scopes; S05: duplicates.
use crate::sem::*;
fn warned(ds: &[Diagnostic], t: &str) -> Vec<usize> { let mut v: Vec<usize> = ds.iter().filter(|d| d.code == DiagnosticCode::UnusedVariable).map(|d| t.as_bytes()[..d.span.start].iter().filter(|b| **b == b'\n').count()).collect(); v.sort(); v }
/// what the harness knows about the scopes at a point of the program
struct Env { scopes: Vec<Vec<(String, T, usize)>>, defs: Vec<(String, usize, bool)>, missing: Vec<String>, err: T }
impl Env {
    fn new() -> Env { Env { scopes: vec![vec![]], defs: vec![], missing: vec![], err: Fun } }
    fn def(&mut self, n: &str, t: T, line: usize) { self.defs.push((n.to_string(), line, false)); let d = self.defs.len() - 1; self.scopes.last_mut().unwrap().push((n.to_string(), t, d)); }
    /// the type of a name, and whether its use is reported (a name is reported once per module)
    fn get(&mut self, n: &str) -> (T, bool) {
        for s in self.scopes.iter().rev() { for (m, t, d) in s.iter().rev() { if m == n { self.defs[*d].2 = true; return (t.clone(), false) } } }
        if self.missing.iter().any(|m| m == n) { return (self.err.clone(), false) } self.missing.push(n.to_string()); (self.err.clone(), true)
    }
}
/// random walks of definitions, uses and blocks
pub fn h_scopes() {
    let head = if thorough() { choose("head", 4) } else { 3 * choose("head", 2) }; let n = tier(3, 4); let mut e = Env::new(); let mut p = Prog::new("struct P { x: felt }");
    if head & 1 == 1 { p.add("const x: felt = 7;", false); e.def("x", F, p.n - 1); }
    e.scopes.push(vec![]); if head & 2 == 2 { p.add("fn f(c: bool, x: P) {", false); } else { p.add("fn f(c: bool, y: P) {", false); }
    e.def("c", B, p.n - 1); e.def(if head & 2 == 2 { "x" } else { "y" }, P, p.n - 1); let base = e.scopes.len(); let mut kinds: Vec<usize> = vec![];
    for i in 0..n {
        let k = var(&format!("s{i}"), 8); assume(k < 14); if kinds.is_empty() { assume(k != 13); } if kinds.last() != Some(&1) { assume(k != 12) } let k = concretize(k); let line = p.n;
        match k {
            0 => { p.add("let x = 1u32;", false); e.def("x", U, line); }
            1 => { p.add("let x = true;", false); e.def("x", B, line); }
            2 => { let (t, bad) = e.get("x"); p.add("let y = x;", bad); e.def("y", t, line); }
            3 => { let (t, bad) = e.get("x"); p.add("let _k: u32 = x;", bad | (t != U) & (t != Fun)); }
            4 => { let (t, bad) = e.get("y"); p.add("let _k: bool = y;", bad | (t != B) & (t != Fun)); }
            5 => { let (t, bad) = e.get("x"); p.add("let x = (x, 1);", bad); e.def("x", Tup(vec![t, F]), line); }
            6 => { p.add("let (x, y) = (true, 2u32);", false); e.def("x", B, line); e.def("y", U, line); }
            7 => { p.add("const x = 2u32;", false); e.def("x", U, line); }
            8 => { p.add("{", false); kinds.push(0); e.scopes.push(vec![]); }
            9 => { let (_, bad) = e.get("c"); p.add("if (c) {", bad); kinds.push(1); e.scopes.push(vec![]); }
            10 => { p.add("loop {", false); kinds.push(2); e.scopes.push(vec![]); }
            11 => { p.add("for (let x = 0; x != 3; x = x + 1) {", false); kinds.push(3); e.scopes.push(vec![]); e.def("x", F, line); e.get("x"); e.scopes.push(vec![]); }
            12 => { p.add("} else {", false); e.scopes.pop(); e.scopes.push(vec![]); *kinds.last_mut().unwrap() = 0; }
            _ => { close(&mut p, &mut e, &mut kinds); }
        }
    }
    // every name is still, or again, what it was before the blocks
    while !kinds.is_empty() { let (t, bad) = e.get("x"); p.add("let _k: felt = x;", bad | (t != F) & (t != Fun)); close(&mut p, &mut e, &mut kinds); }
    check(e.scopes.len() == base, "the harness closes its scopes");
    let (t, bad) = e.get("y"); p.add("let _k: P = y;", bad | (t != P) & (t != Fun)); let (t, bad) = e.get("x"); p.add("let _k: u32 = x;", bad | (t != U) & (t != Fun));
    p.add("return;\n}", false);
    let ds = p.judge("names");
    let mut want: Vec<usize> = e.defs.iter().filter(|d| !d.2).map(|d| d.1).collect(); want.sort();
    check(warned(&ds, &p.text) == want, "exactly the variables that are never used are reported as unused");
}
fn close(p: &mut Prog, e: &mut Env, kinds: &mut Vec<usize>) { let k = kinds.pop().unwrap(); if k == 2 { p.add("break;", false); } p.add("}", false); e.scopes.pop(); if k == 3 { e.scopes.pop(); } }

/// top-level items can be used before and after their definition, in any order
pub fn h_order() {
    let items = ["fn a(x: S) -> u32 { return b(x.v) + C; }", "fn b(v: u32) -> u32 { let s = S { v: v }; return s.v; }", "struct S { v: u32 }", "fn m() -> R { return R { s: S { v: C } }; }", "struct R { s: S }"];
    let mut left: Vec<usize> = (0..5).collect(); let mut p = Prog::new("const C: u32 = 3;"); let bad = choose("broken", 4);
    for i in 0..5 { let k = choose(&format!("i{i}"), left.len()); let it = left.remove(k); let mut t = items[it].to_string(); let mut wrong = false;
        match (bad, it) { (1, 0) => { t = t.replace("b(x.v)", "bb(x.v)"); wrong = true } (2, 3) => { t = t.replace("-> R", "-> T"); wrong = true } (3, 1) => { t = t.replace("S {", "Z {"); wrong = true } _ => () }
        p.add(&t, wrong); }
    p.judge("order of items");
}
/// a name that is not declared, in every place where a name can stand; declared and undeclared names of one or two arbitrary letters
pub fn h_undeclared() {
    let places = ["let _z = @;", "_w = @;", "@ = 1;", "let _z = @ + 1;", "let _z = -@;", "let _z = (@, 1);", "let _z = [@, 1];", "let _z = k(@);", "let _z = @.x;", "let _z = @[0];", "let _z = @.0;", "let _z = ar[@];", "if @ == 1 { _w = 1; }", "while @ == 1 { _w = 1; }", "for (let i = @; i == 1; i = i + 1) { _w = i; }", "for (let i = 1; i == @; i = i + 1) { _w = i; }", "for (let i = 1; i == 1; i = i + @) { _w = i; }",
        "let _z = (@);", "assert(@ == 1);", "let _z = PP { x: @ };", "let _z = new felt[@];", "let _z = @ as felt;", "const _Z = @;", "let _z = [@; 2];", "loop { _w = @; break; }", "if true { _w = 1; } else { _w = @; }", "{ _w = @; }", "let (_z, _y) = (@, 1);", "return k(@);", "@(1);", "let _z = 1 + (2 * @);", "pt.x = @;", "ar[@] = 1;", "let _z = k(k(@));"];
    let types = ["let _z: @ = 1;", "let _z: @* = q;", "let _z: (felt, @) = (1, 1);", "let _z: [@; 2] = [1, 1];", "let _z = new @[2];", "let _z = @ { x: 1 };", "const _Z: @ = 1;", "let _z = 1 as @;"];
    let c = concretize(byte_in("name", b"abnv") as u64) as u8 as char; let two = bool("two"); let name = if two { format!("{c}{}", concretize(byte_in("second", b"b0_") as u64) as u8 as char) } else { c.to_string() };
    let ty = bool("type"); let line = if ty { pick("place", &types) } else { pick("place", &places) };
    // `a` is a felt, `ab` another
    let known = !ty & ((name == "a") | (name == "ab"));
    let mut p = Prog::new("struct PP { x: felt }\nfn k(i: felt) -> felt { return i; }\nfn f(a: felt, ab: felt, q: felt*, _w: felt, pt: PP, ar: [felt; 2]) -> felt {");
    let wrong_shape = line.contains("@.x") | line.contains("@[0]") | line.contains("@.0") | line.contains("@ as felt") | line.contains("@(1)");
    p.add(&line.replace("@", &name), !known | wrong_shape); if line.starts_with("return") { p.add("}", false); } else { p.add("return 1;\n}", false); }
    if known { reach("known name") } else { reach("unknown name") }
    let ds = p.judge("undeclared name");
    // as an undeclared name or type, and by its name
    if !known { let n = ds.iter().filter(|d| (d.code == DiagnosticCode::UndeclaredVariable) | (d.code == DiagnosticCode::UndeclaredType)).filter(|d| d.message.contains(&format!("'{name}'")) & (&p.text[d.span.start..d.span.end] == name)).count(); check((n >= 1) | line.contains("as @") | ((name == "a") | (name == "ab")) & line.contains("@ {"), "an undeclared name is reported as such, at the name"); }
}
/// names of items, parameters, fields and of one pattern are unique
pub fn h_dups() {
    let pre = pick("prefix", &["", "_", "_a_", "aB"]); let nm = |i: usize| format!("{pre}{}", concretize(byte_in(&format!("n{i}"), b"xyz") as u64) as u8 as char); let (a, b, c) = (nm(0), nm(1), nm(2)); let what = choose("what", 12);
    let dup = (a == b) | (b == c) | (a == c); let mut p = Prog::new("fn k() -> ((felt, felt), felt) { return ((1, 2), 3); }");
    match what {
        0 => { p.add(&format!("fn f({a}: felt, {b}: u32, {c}: felt) {{ return; }}"), dup); }
        1 => { p.add(&format!("struct S {{ {a}: felt, {b}: u32, {c}: felt }}"), dup); }
        2 => { p.add("fn f() {", false).add(&format!("let (({a}, {b}), {c}) = k();"), dup).add("return;\n}", false); }
        3 => { p.add("fn f() {\nfor (let i = 0; i != 3; i = i + 1) {\nif true {", false).add(&format!("let (({a}, {b}), {c}) = k();"), dup).add("}\n}\nreturn;\n}", false); }
        4 => { p.add(&format!("fn {a}() {{ return; }}"), false).add(&format!("fn {b}() {{ return; }}"), a == b).add(&format!("fn {c}() {{ return; }}"), (c == a) | (c == b)); }
        5 => { p.add(&format!("struct {a} {{ v: felt }}"), false).add(&format!("fn {b}() {{ return; }}"), a == b).add(&format!("const {c} = 1;"), (c == a) | (c == b)); }
        6 => { p.add(&format!("const {a} = 1;"), false).add(&format!("const {b} = 1u32;"), a == b).add(&format!("struct {c} {{ v: felt }}"), (c == a) | (c == b)); }
        8 => { p.add("fn j() -> ((felt, felt, felt), felt) { return ((1, 2, 3), 4); }\nfn f() {", false).add(&format!("let (({a}, {b}, {c}), w) = j();"), dup).add("return;\n}", false); }
        9 => { p.add("fn j() -> (felt, (felt, (felt, felt, felt))) { return (1, (2, (3, 4, 5))); }\nfn f() {\nif true {", false).add(&format!("let ({a}, (w, (v, {b}, {c}))) = j();"), dup).add("}\nreturn;\n}", false); }
        10 => { p.others = vec![("lib".into(), format!("fn {pre}x() {{ return; }}\nconst {pre}y = 1;\nstruct {pre}z {{ v: felt }}"))]; if a == b { return } p.add(&format!("use lib::{{{a}, {b}}};"), false).add(&match choose("item", 3) { 0 => format!("fn {c}() {{ return; }}"), 1 => format!("const {c} = 2u32;"), _ => format!("struct {c} {{ w: u32 }}") }, dup); }
        11 => { p.others = vec![("lib".into(), format!("fn {pre}x() {{ return; }}\nconst {pre}y = 1;\nstruct {pre}z {{ v: felt }}"))]; p.add(&format!("use lib::{{{a}, {b}}};"), a == b).add(&format!("use lib::{c};"), (c == a) | (c == b)).add("fn f() { return; }", false); }
        _ => { p.add(&format!("struct {a} {{ v: felt }}"), false).add(&format!("struct {b} {{ v: u32 }}"), a == b).add("fn f() {\nloop {\nwhile true {", false).add(&format!("let (({a}, {b}), {c}) = k();"), dup).add("}\nbreak;\n}\nreturn;\n}", false); }
    }
    if dup { reach("duplicate") } else { reach("distinct") }
    p.judge("unique names");
}
/// structs may refer to each other in any order, but not in a circle
pub fn h_recursive() {
    let n = 3; let ty = |i: usize| { let k = choose(&format!("t{i}"), 4); let w = choose(&format!("w{i}"), tier(2, 4)); (k, w) }; let ts: Vec<(usize, usize)> = (0..n).map(|i| ty(i)).collect(); let nm = ["B", "C", "A"];
    let mut adj = [[false; 3]; 3]; for (i, t) in ts.iter().enumerate() { if t.0 < 3 { adj[i][t.0] = true } } for k in 0..3 { for i in 0..3 { for j in 0..3 { if adj[i][k] & adj[k][j] { adj[i][j] = true } } } }
    let text = |t: (usize, usize)| { let b = if t.0 < 3 { nm[t.0] } else { "felt" }; match t.1 { 0 => b.to_string(), 1 => format!("{b}*"), 2 => format!("({b}, u32)"), _ => format!("[{b}; 2]") } };
    let mut p = Prog::default(); for i in 0..3 { p.add(&format!("struct {} {{ v: {} }}", nm[i], text(ts[i])), false); }
    for i in 0..3 { p.add(&format!("fn f{i}(x: {}) -> {} {{\nlet _y: {} = x.v;\nlet _z: {}* = new {}[2];", nm[i], text(ts[i]), text(ts[i]), nm[i], nm[i]), false).add("let _e: bool = x.v;", true).add("let _n = x.w;", true).add(&format!("let _s = {} {{ v: x.v }};\nreturn x.v;\n}}", nm[i]), false); }
    if (0..3).any(|i| adj[i][i]) { reach("circle"); note(&p.text); note("KF5: structs that contain each other, used"); let ds = analyse(&[("main", &p.text)]); check(ds.iter().any(is_error), "structs that contain each other are rejected"); return }
    p.judge("structs of structs");
}
