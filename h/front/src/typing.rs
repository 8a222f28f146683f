//! S01: the types of expressions and statements.
use crate::sem::*;
const HEAD: &str = "struct P { x: felt, y: u32 }\nstruct Q { x: felt, y: u32 }\nconst K: felt = 3;\nfn g(a: felt, b: u32) -> bool { return a == 1; }\nfn h() -> P { return P { x: 1, y: 2 }; }\nfn z() { return; }";
const PARAMS: &str = "a: felt, b: u32, c: bool, p: P, t: (felt, u32), r: [felt; 3], q: felt*, v: u32*";
fn prog() -> Prog { let mut p = Prog::new(HEAD); p.add(&format!("fn f({PARAMS}) {{"), false); p }
fn done(mut p: Prog, w: &str) { p.add("return;\n}", false); p.judge(w); }
fn atoms() -> Vec<(&'static str, T)> { vec![("a", F), ("b", U), ("c", B), ("1", Lit), ("p", P), ("t", Tup(vec![F, U])), ("r", arr(F, 3)), ("q", ptr(F)),
    ("K", F), ("1u32", U), ("true", B), ("g(a, b)", B), ("p.y", U), ("t.0", F), ("r[a]", F), ("v[1]", U), ("h()", P), ("z()", Tup(vec![])), ("()", Tup(vec![])), ("z", Fun)] }
fn atom(n: &str, k: usize) -> (&'static str, T) { pick(n, &atoms()[..k]) }
const OPS: [&str; 16] = ["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^"];
/// the type of `l op r`, None if there is none
pub fn bin(op: &str, l: &T, r: &T) -> Option<T> {
    let commutes = matches!(op, "+" | "*" | "==" | "!=");
    let (l, r) = if *l == Lit && *r != Lit && commutes { (l.fit(r), r.clone()) } else { let l = l.fit(&F); let r = r.fit(&l); (l, r) };
    if l != r { return None }
    match op {
        "+" | "-" | "*" | "/" if l.num() => Some(l),
        "%" | "&" | "|" | "^" if l == U => Some(l),
        "==" | "!=" if l.num() | (l == B) => Some(B),
        "<" | ">" | "<=" | ">=" if l == U => Some(B),
        "&&" | "||" if l == B => Some(B),
        _ => None,
    }
}
pub fn h_typ_bin() {
    let op = pick("op", &OPS); let (l, lt) = atom("l", tier(6, 20)); let (r, rt) = atom("r", tier(6, 20));
    let mut p = prog(); p.add(&format!("let _z = {l} {op} {r};"), bin(op, &lt, &rt).is_none()); done(p, "binary operator");
}

fn types() -> Vec<T> { vec![F, U, B, P, Tup(vec![F, U]), arr(F, 3), Q, Tup(vec![]), ptr(F), arr(U, 2), ptr(U), Tup(vec![U, F]), Tup(vec![U, B]), Tup(vec![F, U, F]), arr(P, 2), ptr(P)] }
/// values with their types, the atoms first
fn values() -> Vec<(&'static str, T)> { let mut v = atoms(); v.extend(vec![("(1, 2)", Tup(vec![Lit, Lit])), ("[1, 2, 3]", arr(Lit, 3)), ("1 + 1", Lit), ("(1)", Lit), ("(b)", U), ("b as felt", F), ("P { x: a, y: b }", P), ("!c", B),
    ("(a, b)", Tup(vec![F, U])), ("(b, 1)", Tup(vec![U, Lit])), ("[b, b]", arr(U, 2)), ("[0; 3]", arr(Lit, 3)), ("[a; 2]", arr(F, 2)), ("new felt[3]", ptr(F)), ("new u32[a]", ptr(U)), ("1 == 1", B), ("(a, (b, c)).1", Tup(vec![U, B])), ("[p, h()]", arr(P, 2)), ("new P[2]", ptr(P)), ("-a", F), ("g", Fun), ("(1, 2, a)", Tup(vec![Lit, Lit, F]))]); v }
pub fn h_typ_place() {
    let t = pick("type", &types()[..tier(7, 16)]); let (v, vt) = pick("value", &values()[..tier(28, 42)]); let bad = !vt.is(&t); let n = t.text();
    let mut p = Prog::new(HEAD); p.add(&format!("struct S {{ x: {n} }}\nfn k(x: {n}) {{ return; }}\nfn f({PARAMS}, m: {n}) {{"), false);
    p.add(&format!("let _l: {n} = {v};"), bad).add(&format!("m = {v};"), bad).add(&format!("let _c = k({v});"), bad).add(&format!("let _s = S {{ x: {v} }};"), bad).add("let _d: felt = 1;\nreturn;\n}", false);
    p.add(&format!("fn r({PARAMS}) -> {n} {{\nif c {{\nlet _x: felt = 1;"), false).add(&format!("return {v};"), bad).add("}", false).add(&format!("return {v};"), bad).add("}", false);
    p.judge("place with a type");
}
pub fn h_typ_un() {
    let o = pick("op", &["-", "!"]); let o2 = pick("op2", &["", "-", "!"]); let (l, lt) = atom("l", 20);
    let un = |op: &str, t: &T| match op { "-" => if t.num() | (*t == Lit) { Some(t.clone()) } else { None }, "!" => if *t == B { Some(B) } else { None }, _ => Some(t.clone()) };
    let inner = un(o2, &lt); let bad = inner.is_none() || un(o, &inner.unwrap()).is_none();
    let mut p = prog(); p.add(&format!("let _z = {o}{o2}{l};"), bad); done(p, "unary operator");
}
/// two operators, and the type of the whole
pub fn h_typ_bin2() {
    let k = tier(4, 6); let (l, lt) = atom("l", k); let (m, mt) = atom("m", k); let (r, rt) = atom("r", k); let ops: &[&str] = &["+", "==", "<", "&&", "&", "-"];
    let o = pick("op", &ops[..tier(4, 6)]); let o2 = pick("op2", &ops[..tier(4, 6)]); let left = bool("left");
    // a literal directly beside an operator takes the type of the other side; inside parentheses it is settled there
    let inner = if left { bin(o, &lt, &mt) } else { bin(o2, &mt, &rt) };
    let whole = match &inner { None => None, Some(t) => { let lit_only = |x: &T, y: &T| *x == Lit && *y == Lit; let t = if left { if lit_only(&lt, &mt) & t.num() { return } else { t.clone() } } else { if lit_only(&mt, &rt) & t.num() { return } else { t.clone() } }; if left { bin(o2, &t, &rt) } else { bin(o, &lt, &t) } } };
    // a literal inside parentheses on the right may still take the type of the left side
    if !left & (lt != Lit) & ((mt == Lit) | (rt == Lit)) & (o2 != "==") & (mt != B) & (rt != B) { return }
    let e = if left { format!("({l} {o} {m}) {o2} {r}") } else { format!("{l} {o} ({m} {o2} {r})") };
    let mut p = prog(); p.add(&format!("let _z = {e};"), whole.is_none());
    for w in [F, U, B] { let bad = match &whole { None => true, Some(t) => *t != w }; if whole.is_some() & (lt != Lit) & (mt != Lit) & (rt != Lit) { p.add(&format!("let _y: {} = {e};", w.text()), bad); } }
    done(p, "nested operators");
}
pub fn h_typ_lval() {
    // target, type, whether it can be assigned
    let (l, lt, ok) = pick("target", &[("a", F, true), ("p.x", F, true), ("p.y", U, true), ("t.1", U, true), ("r[0]", F, true), ("v[a]", U, true), ("n", U, true), ("K", F, false), ("CA[0]", F, false), ("CT.1", U, false), ("CP.x", F, false), ("L", U, false), ("LA[1]", U, false),
        ("(a)", F, false), ("1", F, false), ("a + 1", F, false), ("g(a, b)", B, false), ("-a", F, false), ("b as felt", F, false), ("CS.t.0", F, false), ("CS.r[1]", F, false), ("w[a].y", U, true), ("x", F, true)]);
    let (v, vt) = pick("value", &[("a", F), ("b", U), ("1", Lit), ("c", B), ("1 + 1", Lit), ("p", P)]);
    let mut p = Prog::new(HEAD); p.add("struct S { t: (felt, u32), r: [felt; 2] }\nconst CA: [felt; 2] = [1, 2];\nconst CT: (felt, u32) = (1, 2);\nconst CP: P = P { x: 1, y: 2 };\nconst CS: S = S { t: (1, 2), r: [1, 2] };", false);
    p.add(&format!("fn f({PARAMS}, w: P*) {{\nlet n: u32 = 1; let (x, _y) = (1, 2);\nconst L: u32 = 4;\nconst LA: [u32; 2] = [1, 2];"), false);
    p.add(&format!("{l} = {v};"), !ok | !vt.is(&lt)); p.add("if c {\nlet _k: felt = 1;", false).add(&format!("{l} = {v};"), !ok | !vt.is(&lt)).add("}", false); done(p, "assignment");
}
/// members, tuple elements, indices: the type of what is found, or an error
pub fn h_typ_member() {
    let (o, ot) = pick("object", &values()[..tier(20, 42)]); let mut p = prog();
    for (f, ft) in [("x", F), ("y", U)] { let ok = ot == P; p.add(&format!("let _{f}: {} = ({o}).{f};", ft.text()), !ok); p.add(&format!("let _{f}: {} = ({o}).{f};", if ft == F { "u32" } else { "felt" }), true); }
    p.add(&format!("let _z = ({o}).z;"), true);
    if !matches!(ot, Lit) { let ts: Vec<T> = match &ot { Tup(v) => v.clone(), _ => vec![] };
        for i in 0..4 { p.add(&format!("let _t = ({o}).{i};"), i >= ts.len()); if i < ts.len() { let e = ts[i].fit(&F); if e.num() { p.add(&format!("let _t: {} = ({o}).{i};", if e == F { "u32" } else { "felt" }), ts[i] != Lit); p.add(&format!("let _t: {} = ({o}).{i};", e.text()), false); } } } }
    done(p, "member");
}
pub fn h_typ_index() {
    let (o, ot) = pick("object", &values()[..tier(20, 42)]); let d = byte_in("digit", b"0123456789") as char; let (x, xt) = pick("index", &[("a", F), ("b", U), ("c", B), ("p", P), ("1 + 1", Lit), ("1u32", U), ("1felt", F), ("r[0]", F), ("t.1", U)]);
    let mut p = prog(); let el = match &ot { Arr(t, _) | Ptr(t) => Some((**t).clone()), _ => None }; let len = match &ot { Arr(_, n) => *n, _ => 10 };
    p.add(&format!("let _i = ({o})[{x}];"), el.is_none() | !xt.is(&F));
    let out = (d as u64 - 48) >= len; if out { reach("out of bounds") }
    p.add(&format!("let _i = ({o})[{d}];"), el.is_none() | out);
    if let Some(e) = &el { if *e != Lit { for w in [F, U, P] { p.add(&format!("let _i: {} = ({o})[{x}];", w.text()), !xt.is(&F) | (*e != w)); } } }
    done(p, "index");
}
pub fn h_typ_call() {
    let n = choose("args", 4); let mut a = vec![]; let k = tier(5, 9); let at = |i: usize| pick(&format!("a{i}"), &atoms()[..k]);
    for i in 0..n.min(2) { a.push(at(i)); } for _ in 2..n { a.push(("a", F)); }
    let args = a.iter().map(|x| x.0).collect::<Vec<_>>().join(", "); let good = |want: &[T]| a.len() == want.len() && a.iter().zip(want).all(|(x, w)| x.1.is(w));
    let mut p = Prog::new(HEAD); p.add("fn g0() -> felt { return 1; }\nfn g1(p: P) -> u32 { return p.y; }\nfn g3(a: felt, b: u32, c: felt) -> P { return P { x: a + c, y: b }; }", false); p.add(&format!("fn f({PARAMS}) {{"), false);
    p.add(&format!("let _z: bool = g({args});"), !good(&[F, U])).add(&format!("let _z: felt = g0({args});"), !good(&[])).add(&format!("let _z: u32 = g1({args});"), !good(&[P])).add(&format!("let _z: P = g3({args});"), !good(&[F, U, F])).add(&format!("z({args});"), !good(&[]));
    p.add(&format!("assert({args});"), !good(&[B])); for c in ["a", "p", "1", "K", "t.0", "r", "P"] { p.add(&format!("let _z = {c}({args});"), true); } p.add(&format!("let _w: felt = g({args});"), true);
    done(p, "call");
}
pub fn h_typ_struct() {
    let f = |i: &str| pick(i, &["x", "y", "z"]); let v = |i: &str| pick(i, &[("a", F), ("b", U), ("1", Lit), ("c", B)]); let n = choose("n", 4); let name = pick("name", &["P", "Q", "g", "K", "Zz"]);
    let mut fs = vec![]; for i in 0..n.min(2) { fs.push((f(&format!("f{i}")), v(&format!("v{i}")))); } if n == 3 { fs.push((f("f2"), ("1", Lit))); }
    let count = |x: &str| fs.iter().filter(|z| z.0 == x).count(); let ok = matches!(name, "P" | "Q") && count("x") == 1 && count("y") == 1 && count("z") == 0 && fs.iter().all(|z| z.1.1.is(if z.0 == "x" { &F } else { &U }));
    let e = format!("{name} {{ {} }}", fs.iter().map(|z| format!("{}: {}", z.0, z.1.0)).collect::<Vec<_>>().join(", "));
    let mut p = prog(); p.add(&format!("let _z = {e};"), !ok); if ok { for w in ["P", "Q", "felt"] { p.add(&format!("let _y: {w} = {e};"), w != name); } } done(p, "struct literal");
}
pub fn h_typ_array() {
    let vs: Vec<(&str, T)> = vec![("a", F), ("b", U), ("1", Lit), ("c", B), ("p", P), ("2u32", U), ("t", Tup(vec![F, U])), ("(a, b)", Tup(vec![F, U])), ("h()", P), ("q", ptr(F)), ("v", ptr(U))];
    let k = tier(6, 11); let (x, xt) = pick("x", &vs[..k]); let (y, yt) = pick("y", &vs[..k]); let (z, zt) = pick("z", &vs[..4]); let first = xt.fit(&F);
    // a leading literal is a felt unless an annotation says otherwise
    let mut p = prog(); let bad = !yt.is(&first) | !zt.is(&first); p.add(&format!("let _z = [{x}, {y}, {z}];"), bad).add(&format!("let _z = [{x}, {y}];"), !yt.is(&first)).add("let _e = [];", true).add(&format!("let _n = [[{x}], [{x}]];"), true).add(&format!("let _n = [[{x}; 2]; 2];"), true).add(&format!("let _n = [[{x}; 2], [{x}; 2]];"), true).add(&format!("let _n = [[{x}]; 2];"), true);
    for (e, w) in [(F, "[felt; 2]"), (U, "[u32; 2]"), (P, "[P; 2]")] { if (xt != Lit) | yt.is(&F) | (e == F) { p.add(&format!("let _y: {w} = [{x}, {y}];"), !xt.is(&e) | !yt.is(&e)); } p.add(&format!("let _y: {w} = [{x}; 2];"), !xt.is(&e)).add(&format!("let _y: {w} = [{x}; 3];"), true).add(&format!("let _y: {w} = [{x}, {x}, {x}];"), true); }
    done(p, "array literal");
}
pub fn h_typ_cast() {
    let (v, vt) = pick("value", &values()[..tier(28, 42)]); let t = pick("target", &types()[..tier(7, 16)]); let n = t.text();
    let mut p = prog(); p.add(&format!("let _z = ({v}) as {n};"), !((vt == U) & (t == F))); if (vt == U) & (t == F) { p.add(&format!("let _y: felt = ({v}) as felt;"), false).add(&format!("let _y: u32 = ({v}) as felt;"), true).add(&format!("let _y: felt = ({v}) as felt + 1 * a;"), false); } done(p, "cast");
}
pub fn h_typ_cond() {
    let (v, vt) = pick("value", &values()[..tier(28, 42)]); let bad = vt != B; let e = format!("({v})"); let nest = bool("nest");
    let mut p = prog(); if nest { p.add("if c {\nloop {", false); }
    p.add(&format!("if {e} {{ a = 1; }}"), bad).add(&format!("if {e} {{ a = 1; }} else {{ a = 2; }}"), bad).add(&format!("while {e} {{ a = 1; }}"), bad).add(&format!("for (let i = 0; {e}; i = i + 1) {{ a = i; }}"), bad).add(&format!("assert({e});"), bad).add(&format!("if c {{ a = 1; }} else if {e} {{ a = 2; }}"), bad);
    if nest { p.add("break;\n}\n}", false); } done(p, "condition");
}
pub fn h_typ_const() {
    let t = pick("type", &types()[..tier(7, 12)]); let (v, vt) = pick("value", &[("1", Lit), ("1u32", U), ("true", B), ("1 + 1", Lit), ("(1, 2)", Tup(vec![Lit, Lit])), ("[1, 2, 3]", arr(Lit, 3)), ("P { x: 1, y: 2 }", P), ("M", U), ("(1, 1u32)", Tup(vec![Lit, U])), ("[1u32; 2]", arr(U, 2)), ("1 == M", B), ("[M, 2]", arr(U, 2)), ("Q { x: 1, y: M }", Q), ("()", Tup(vec![])), ("2felt", F)]);
    let bad = !vt.is(&t); let mut p = Prog::new("struct P { x: felt, y: u32 }\nstruct Q { x: felt, y: u32 }\nconst M = 7u32;"); let n = t.text();
    p.add(&format!("const A: {n} = {v};"), bad).add(&format!("const D = {v};"), false).add("const E: Zz = 1;", true).add("fn f() {", false).add(&format!("const B: {n} = {v};"), bad).add("if true {", false).add(&format!("const B: {n} = {v};"), bad).add("}", false).add(&format!("let _x: {n} = A;"), false).add(&format!("let _x: {n} = B;"), false);
    for w in types() { p.add(&format!("let _y: {} = D;", w.text()), vt.fit(&Fun) != w); } done(p, "constant");
}
/// tuple patterns: the shape has to be that of the value
pub fn h_typ_pat() {
    let pats: Vec<&str> = vec!["m", "(m, n)", "(m, n, o)", "(m, (n, o))", "((m, n), o)", "(m, (n, (o, l)))", "((m, n), (o, l))", "(m, (n, o, l))", "(((m, n), o), l)", "((m, (n, o)), l)"];
    fn shape(s: &str) -> T { fn go(b: &[u8], i: &mut usize) -> T { if b[*i] != b'(' { *i += 1; return F } *i += 1; let mut v = vec![go(b, i)]; while b[*i] == b',' { *i += 2; v.push(go(b, i)); } *i += 1; Tup(v) } go(s.as_bytes(), &mut 0) }
    fn fits(p: &T, v: &T) -> bool { match (p, v) { (Tup(a), Tup(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| fits(x, y)), (Tup(_), _) => false, _ => true } }
    let k = tier(8, 10); let ps = pick("pattern", &pats[..k]); let vs = pick("value", &pats[1..k]); let ann = bool("annotated"); let call = bool("call");
    let (pt, vt) = (shape(ps), shape(vs)); let ok = fits(&pt, &vt); let value: String = vs.chars().map(|c| if c.is_ascii_lowercase() { 'a' } else { c }).collect();
    let mut p = Prog::new(HEAD); p.add(&format!("fn mk(a: felt) -> {} {{ return {value}; }}", vt.text()), false); p.add(&format!("fn f({PARAMS}) {{"), false);
    p.add(&format!("let {ps}{} = {};", if ann { format!(": {}", vt.text()) } else { String::new() }, if call { "mk(a)".to_string() } else { value }), !ok);
    if ok { fn binds<'a>(p: &'a str, pt: &T, vt: &T, out: &mut Vec<(char, T)>, names: &mut std::str::Chars) { match (pt, vt) { (Tup(a), Tup(b)) => for (x, y) in a.iter().zip(b) { binds(p, x, y, out, names) }, _ => { let c = names.next().unwrap(); out.push((c, vt.clone())) } } }
        let names: String = ps.chars().filter(|c| c.is_ascii_lowercase()).collect(); let mut out = vec![]; binds(ps, &pt, &vt, &mut out, &mut names.chars());
        for (c, t) in out { p.add(&format!("let _u: {} = {c};", t.text()), false).add(&format!("let _u: {} = {c};", if t == F { "u32" } else { "felt" }), true); } }
    done(p, "tuple pattern");
}
/// a variable without annotation has the type of its value, wherever the value comes from and wherever it is used
pub fn h_typ_infer() {
    let (v, vt) = pick("value", &values()[..tier(28, 42)]); let how = choose("how", 5); let t = vt.fit(&Fun); if t == Fun { return }
    let mut p = prog();
    match how { 0 => { p.add(&format!("let x = {v};"), false); } 1 => { p.add(&format!("let (_n, x) = (c, {v});"), false); } 2 => { p.add(&format!("let y = {v};\nlet x = y;"), false); } 3 => { p.add(&format!("let x = 1;\nlet x = {v};"), false); } _ => { p.add(&format!("let ((x, _m), _n) = (({v}, 1), c);"), false); } }
    for w in types() { p.add(&format!("let _u: {} = x;", w.text()), t != w); } p.add("if c {", false); for w in [F, U, B, P] { p.add(&format!("let _u: {} = x;", w.text()), t != w); } p.add("}\nloop {", false); for w in [F, U, B, P] { p.add(&format!("let _u: {} = (x);", w.text()), t != w); } p.add("break;\n}", false);
    done(p, "inferred type");
}
/// the number of elements of `new` and of a repeat
pub fn h_typ_new() {
    let (v, vt) = pick("count", &values()[..tier(28, 42)]); let t = pick("type", &types()[..tier(5, 16)]); let n = t.text();
    let mut p = prog(); p.add(&format!("let x = new {n}[{v}];"), !vt.is(&F)); for w in [F, U, P] { p.add(&format!("let _u: {}* = x;", w.text()), t != w); } if !matches!(t, Arr(..)) { p.add(&format!("let _e: {n} = x[a];"), false); } p.add("let _u: felt = x;", true).add("let _u = new Zz[2];", true); done(p, "new");
}
/// a type is itself only, however similar others are, in every place
pub fn h_typ_same() {
    let ts: Vec<&str> = vec!["felt", "u32", "bool", "P", "Q", "R", "O", "()", "felt*", "u32*", "bool*", "P*", "Q*", "R*", "felt**", "P**", "Q**", "(felt, u32)", "(u32, felt)", "(felt, felt)", "(felt, u32, felt)", "(felt, (u32, felt))", "((felt, u32), felt)", "(P, Q)", "(Q, P)", "(P*, u32)", "(Q*, u32)", "(P, P, P)", "[felt; 2]", "[felt; 3]", "[u32; 2]", "[P; 2]", "[Q; 2]", "[P*; 2]", "[Q*; 2]", "[(felt, u32); 2]", "[(u32, felt); 2]", "(felt,)", "([felt; 2], P)", "([felt; 3], P)", "([felt; 2], Q)", "[felt; 2]*", "[felt; 3]*", "(felt, u32)*", "(u32, felt)*"];
    let ts: Vec<&str> = if thorough() { ts } else { ts.into_iter().enumerate().filter(|x| ![1, 2, 6, 9, 10, 13, 15, 16, 20, 22, 24, 27, 29, 33, 34, 36, 38, 39, 41, 43, 44].contains(&x.0)).map(|x| x.1).collect() };
    let a = choose("type", ts.len()); let place = choose("place", 8); let t = ts[a];
    let mut p = Prog::new("struct P { x: felt, y: u32 }\nstruct Q { x: felt, y: u32 }\nstruct R { y: u32, x: felt }\nstruct O { x: felt }");
    // in tuples and structs, arrays do not stand alone
    for (i, w) in ts.iter().enumerate() { let bad = i != a; match place {
        0 => { if i == 0 { p.add(&format!("fn f(v: {t}) {{"), false); } p.add(&format!("let _x: {w} = v;"), bad); }
        1 => { p.add(&format!("fn g{i}(x: {w}) {{ return; }}\nfn f{i}(v: {t}) {{"), false).add(&format!("g{i}(v);"), bad).add("return;\n}", false); }
        2 => { p.add(&format!("fn f{i}(v: {t}) -> {w} {{"), false).add("return v;", bad).add("}", false); }
        3 => { p.add(&format!("struct S{i} {{ f: {w} }}\nfn f{i}(v: {t}) {{"), false).add(&format!("let _s = S{i} {{ f: v }};"), bad).add("return;\n}", false); }
        4 => { p.add(&format!("fn f{i}(v: {t}, x: {w}) {{"), false).add("x = v;", bad).add("return;\n}", false); }
        5 => { p.add(&format!("fn f{i}(v: {t}, s: {w}*) {{"), false).add("s[1] = v;", bad).add("return;\n}", false); }
        6 => { p.add(&format!("fn f{i}(v: {t}) {{"), false).add(&format!("let (_a, _b): ({w}, felt) = (v, 1);"), bad).add("return;\n}", false); }
        _ => { if t.starts_with('[') | w.starts_with('[') { continue } p.add(&format!("fn f{i}(v: {t}, x: {w}) {{"), false).add("let _a = [v, x];", bad).add("return;\n}", false); }
    } }
    if place == 0 { p.add("return;\n}", false); } p.judge("the same type");
}
