//! S04: literals and the ranges of their types; array sizes and bounds.
use crate::sem::*;
const FELT: u64 = (1 << 31) - 1;
const U32: u64 = (1 << 32) - 1;
/// a number in a base whose last digits are arbitrary, with its value
fn number() -> (String, u64) {
    let (prefix, base, v) = pick("prefix", &[("", 10, 0u64), ("214748364", 10, 214748364), ("429496729", 10, 429496729), ("0x7ffffff", 16, 0x7ffffff), ("0x8000000", 16, 0x8000000), ("0xffffff", 16, 0xffffff), ("0x1000000", 16, 0x1000000), ("0b1111111111111111111111111111111", 2, 0x7fffffff), ("1844674407370955", 10, 1844674407370955), ("99999999999", 10, 99999999999)]);
    let n = if prefix == "0xffffff" || prefix == "0x1000000" || prefix == "1844674407370955" || prefix == "99999999999" { 2 } else { 1 };
    let mut t = prefix.as_bytes().to_vec(); let mut v = v;
    for i in 0..n { let d = byte_in(&format!("d{i}"), &b"0123456789abcdef"[..base as usize]); let x = if d >= b'a' { d - b'a' + 10 } else { d - b'0' }; t.push(d); v = v.wrapping_mul(base).wrapping_add(x as u64); }
    (text(t), v)
}
pub fn h_range() {
    let (l, v) = number(); let place = choose("place", 19); let (over_f, over_u) = (v > FELT, v > U32); let u = bool("u32") ; let u = concretize(u as u64) == 1; let (ty, over) = if u { ("u32", over_u) } else { ("felt", over_f) };
    // every bound is decided before the program is analysed
    let over = concretize(over as u64) == 1; let (over_f, over_u) = (concretize(over_f as u64) == 1, concretize(over_u as u64) == 1);
    let mut p = Prog::new("struct S { f: felt, u: u32, b: bool }\nfn kf(a: felt) -> felt { return a; }\nfn ku(a: u32) -> u32 { return a; }"); let n = if u { "u" } else { "f" };
    let inner: (String, bool) = match place {
        0 => (format!("let _x: {ty} = {l};"), over),
        1 => (format!("let _x = {l}{ty};"), over),
        2 => (format!("let _x: {ty} = {l}{ty};"), over),
        3 => (format!("_w = [1, {l}felt];"), over_f),
        4 => (format!("let _x = k{n}({l}{ty});"), over),
        5 => (format!("let _x = S {{ {n}: {l}{ty}, {} b: true }};", if u { "f: 1," } else { "u: 1," }), over),
        6 => (format!("if w{n} == {l}{ty} {{ return; }}"), over),
        7 => (format!("let _x = (1, (true, {l}{ty}));"), over),
        8 => (format!("for (let i = 0{ty}; i != {l}{ty}; i = i + 1{ty}) {{ _w[0] = 1; }}"), over),
        9 => (format!("w{n} = w{n} + {l}{ty};"), over),
        10 => (format!("let _x = -{l}felt;"), over_f),
        11 => (format!("const _C: {ty} = {l};"), over),
        12 => (format!("const _C = {l};"), over_f),
        13 => (format!("const _C = {l}{ty};"), over),
        14 => (format!("let _x: {ty} = -{l};"), true),
        // wherever a literal is, it has to fit some type
        15 => (format!("w{n} = (w{n} * {l});"), over_u),
        16 => (format!("assert(w{n} == {l});"), over_u),
        17 => (format!("let _x: {ty} = (-({l}));"), true),
        _ => (format!("w{n} = k{n}({l});"), over_u),
    };
    if (place == 17) { return }
    let known = ((place == 15) | (place == 16) | (place == 18)) & !u & over_f & !over_u;
    if place >= 11 && place <= 13 && bool("top") { p.add(&inner.0, inner.1).add("fn f(wf: felt, wu: u32) {\nreturn;\n}", false); }
    else { p.add("fn f(wf: felt, wu: u32, _w: [felt; 2]) {", false).add(&inner.0, inner.1).add("return;\n}", false); }
    if inner.1 | known { reach("out of range") } else { reach("in range") }
    if known { let ds = analyse(&[("main", &p.text)]); note(&p.text); check(ds.iter().any(is_error), "KF4: an unsuffixed felt literal of 2^31 to 2^32-1 is accepted outside annotated lets and consts"); return }
    p.judge("range of a literal");
}
/// a suffix is a type like any other
pub fn h_suffix() {
    let s = pick("suffix", &["felt", "u32"]); let w = pick("type", &[F, U, B, P, Tup(vec![F, F]), ptr(F), arr(U, 1)]); let d = byte_in("digit", b"0123456789") as char; let other = if s == "felt" { "u32" } else { "felt" };
    let mut p = Prog::new("struct P { x: felt, y: u32 }\nstruct S { v: felt }"); let ok = w == if s == "felt" { F } else { U }; let n = w.text();
    p.add(&format!("fn k(x: {n}) -> bool {{ return true; }}\nfn f(mut_: {n}) -> bool {{"), false);
    p.add(&format!("let _x: {n} = {d}{s};"), !ok).add(&format!("let _y = k({d}{s});"), !ok).add(&format!("mut_ = {d}{s};"), !ok).add(&format!("let _z = {d}{s} + 1{other};"), true).add(&format!("let _z = {d}{s} + 1{s};"), false).add(&format!("let _z = {d}{s} == {d};"), false).add(&format!("let _z = {d} * {d}{s};"), false).add(&format!("let _i = [1, 2, 3, 4, 5, 6, 7, 8, 9, 0][{d}{s}];"), s == "u32").add(&format!("const C = {d}{s};"), false).add(&format!("let _x: {n} = C;"), !ok).add("return true;\n}", false);
    p.add(&format!("fn r() -> {n} {{"), false).add(&format!("return {d}{s};"), !ok).add("}", false);
    p.judge("suffix");
}
/// sizes and constant indices
pub fn h_sizes() {
    let n = choose("size", 5) as u64; let m = choose("have", 4) as u64 + 1; let i = byte_in("index", b"0123456789") as char; let big = pick("big", &["", "429496729", "0x10000000", "1844674407370955160"]); let o = !big.is_empty() | (concretize(((i as u64) - 48 >= m) as u64) == 1); let over = match big { "" => false, "429496729" => concretize((i > '5') as u64) == 1, _ => true }; let i = text([big.as_bytes(), &[i as u8]].concat()); let kind = choose("kind", 4);
    let lit = match kind { 0 => format!("[{}]", vec!["a"; m as usize].join(", ")), 1 => format!("[a; {m}]"), 2 => "x".to_string(), _ => "k()".to_string() };
    let mut p = Prog::new(&format!("fn k() -> [felt; {m}] {{ return [1; {m}]; }}\nfn p(v: [felt; {n}]) {{ return; }}\nfn f(a: felt, x: [felt; {m}], q: felt*) {{"));
    let bad = n != m; p.add(&format!("let _b: [felt; {n}] = {lit};"), bad).add(&format!("p({lit});"), bad).add(&format!("let v: [felt; {m}] = {lit};"), false).add(&format!("let _c = v[{i}];"), o).add(&format!("v[{i}] = 1;"), o).add(&format!("let _c = q[{i}];"), over).add(&format!("if true {{ a = ({lit})[{i}]; }}"), o).add(&format!("let _d = [a, v[{i}]];"), o).add(&format!("loop {{ v[{i}] = a; break; }}"), o).add(&format!("let v: [felt; {n}] = v;"), bad);
    if !big.is_empty() & !over { p.maybe.push(8); }
    p.maybe.push(p.n); p.add("return;\n}", false); if o { reach("out of bounds") } else { reach("in bounds") }
    let ds = p.judge("array sizes"); let oob = error_lines(&ds, "main", &p.text, |d| d.code == DiagnosticCode::IndexOutOfBounds);
    check(oob == if o { vec![6, 7, 9, 10, 11] } else { vec![] }, "an index out of bounds is reported as such");
}
/// constant arrays are not handed out by reference
pub fn h_const_array() {
    let home = pick("home", &["top", "local", "block", "lib"]); let form = pick("form", &["A", "(A)", "((A))"]); let hide = choose("hide", 3);
    let mut p = Prog::default(); if home == "lib" { p.add("use lib::A;", false); p.others = vec![("lib".into(), "const A: [u32; 3] = [1, 2, 3];".into())]; }
    if home == "top" { p.add("const A: [u32; 3] = [1, 2, 3];", false); }
    p.add("struct S { v: [u32; 3], n: felt }\nfn k(x: felt, v: [u32; 3]) -> u32 { return v[x]; }\nfn f(i: felt, w: [u32; 3]) -> [u32; 3] {", false);
    if home == "local" { p.add("const A: [u32; 3] = [1, 2, 3];", false); } let block = home == "block"; if block { p.add("if true {\nconst A: [u32; 3] = [1, 2, 3];", false); }
    if hide == 1 { p.add("let A = A;", false); } if hide == 2 { p.add("if true { let A = w; let _k = A; }", false); }
    let bad = hide != 1;
    p.add(&format!("let _a = k(1, {form});"), bad).add(&format!("let _b = ({form}, 1);"), bad).add(&format!("let _c = (1, (true, {form}));"), bad).add(&format!("let _s = S {{ v: {form}, n: 1 }};"), bad).add(&format!("let c = {form};"), false).add("let _d = k(1, c);", false).add(&format!("let _e = {form}[1] + {form}[i];"), false).add(&format!("w = {form};"), false).add("let _g = S { v: w, n: i };", false);
    p.add(&format!("loop {{\nif i == 1 {{\nk(2, {form});"), false); { let l = p.n - 1; if bad { p.bad.push(l) } } p.add("}\nbreak;\n}", false);
    p.add(&format!("if i == 2 {{ let _q = k(1, c); return c; }}\nif i == 3 {{"), false).add(&format!("return {form};"), bad).add("}", false);
    if block { p.add("}", false).add("return w;\n}", false); } else { p.add(&format!("return {form};"), bad).add("}", false); }
    p.judge("constant array");
}
