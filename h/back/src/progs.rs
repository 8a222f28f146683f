//! E01: programs put together from parts
use crate::exec::*;
/// compile a text both ways and compare one of its functions with the interpreter on any arguments
pub fn run(t: &str, fuel: u32) { if !is_symbolic() { note(t); } corpus(t, fuel) }
const FLITS: [&str; 10] = ["0", "1", "2", "3", "65535", "65536", "1073741824", "2147483645", "2147483646", "-1"];
const ULITS: [&str; 10] = ["0", "1", "2", "3", "65535", "65536", "2147483647", "2147483648", "4294901760", "4294967295"];
const FOPS: [&str; 10] = ["+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">="];
const UOPS: [&str; 14] = ["+", "-", "*", "/", "%", "&", "|", "^", "==", "!=", "<", "<=", ">", ">="];
fn cmp(op: &str) -> bool { matches!(op, "==" | "!=" | "<" | "<=" | ">" | ">=") }
/// one operation on felts, whatever its operands are: a parameter, a variable known to hold a constant, a literal, the same twice
pub fn h_felt_op() {
    let op = FOPS[choose("op", 6)]; let mut t = String::new(); let l = choose("left", FLITS.len() + 2);
    let opd = |i: usize, p: &str| if i < FLITS.len() { FLITS[i].to_string() } else if i == FLITS.len() { p.to_string() } else { "k".to_string() };
    let r = if cmp(op) { "bool" } else { "felt" };
    for i in 0..FLITS.len() + 2 { if (op == "/") & ((i == 0)) { continue; } t += &format!("fn f{i}(a: felt, b: felt) -> {r} {{ let k = 5; let z = {} {op} {}; return z; }}\n", opd(l, "a"), opd(i, "b")); }
    if l == FLITS.len() { t += &format!("fn s(a: felt) -> {r} {{ return a {op} a; }}\nfn d(a: felt, b: felt) -> {r} {{ let c = a; a = b; return c {op} a; }}\n"); }
    run(&t, 9);
}
pub fn h_u32_op() {
    let op = UOPS[choose("op", UOPS.len())]; let mut t = String::new(); let l = choose("left", ULITS.len() + 2);
    let opd = |i: usize, p: &str| if i < ULITS.len() { format!("{}u32", ULITS[i]) } else if i == ULITS.len() { p.to_string() } else { "k".to_string() };
    let r = if cmp(op) { "bool" } else { "u32" };
    for i in 0..ULITS.len() + 2 { if ((op == "/") | (op == "%")) & (i == 0) { continue; } t += &format!("fn f{i}(a: u32, b: u32) -> {r} {{ let k: u32 = 65541; let z = {} {op} {}; return z; }}\n", opd(l, "a"), opd(i, "b")); }
    if l == ULITS.len() { t += &format!("fn s(a: u32) -> {r} {{ return a {op} a; }}\nfn d(a: u32, b: u32) -> {r} {{ let c = a; a = b; return c {op} a; }}\n"); }
    run(&t, 9);
}
/// expressions of three operands, for all pairs of operators and both ways to nest
pub fn h_felt_expr() {
    const L: [&str; 4] = ["a", "b", "c", "-3"];
    let (o1, o2) = (FOPS[choose("op1", 4)], FOPS[choose("op2", 6)]); if (o1 == "/") & cmp(o2) { return reach("end") } let nest = choose("nest", 2); let mut t = String::new(); let mut n = 0;
    for x in &L { for y in &L { if (nest == 1) & (o2 == "/") & (o1 == "-") & (x == y) { continue } let z = "c"; let r = if cmp(o2) { "bool" } else { "felt" };
        let e = if nest == 0 { format!("({x} {o1} {y}) {o2} {z}") } else { format!("{z} {o2} ({x} {o1} {y})") };
        t += &format!("fn f{n}(a: felt, b: felt, c: felt) -> {r} {{ return {e}; }}\n"); n += 1; } }
    run(&t, 9);
}
pub fn h_u32_expr() {
    let mut L: &[&str] = &["a", "b", "65537u32", "1"];
    let (o1, o2) = (UOPS[choose("op1", 8)], UOPS[choose("op2", UOPS.len())]); if cmp(o2) & (o1 != "+") & (o1 != "*") | (o1 == "%") & (o2 == "%") | (o1 == "%") & (o2 == "/") { L = &L[..3] } let nest = choose("nest", 2); let mut t = String::new(); let mut n = 0;
    for x in L { for y in L { if (*x == "1") & (*y == "1") | (nest == 1) & ((o2 == "/") | (o2 == "%")) & ((x == y) | (*x > "0" && *x < "a" && *y < "a")) { continue } let z = if n % 2 == 0 { "c" } else { "a" }; let r = if cmp(o2) { "bool" } else { "u32" };
        let e = if nest == 0 { format!("({x} {o1} {y}) {o2} {z}") } else { format!("{z} {o2} ({x} {o1} {y})") };
        t += &format!("fn f{n}(a: u32, b: u32, c: u32) -> {r} {{ return {e}; }}\n"); n += 1; } }
    run(&t, 9);
}
/// conditions: all ways to combine comparisons and booleans, as values and as what decides a branch
pub fn h_bool_expr() {
    const A: [&str; 8] = ["p", "!q", "true", "a == b", "a != 3", "x < y", "x >= 7", "!(x == y)"];
    let o = ["&&", "||", "==", "!="][choose("op", 4)]; let l = A[choose("left", A.len())]; let form = choose("form", 3); let mut t = String::new(); let mut n = 0;
    for r in &A { let e = format!("({l}) {o} ({r})"); let e = match form { 0 => e, 1 => format!("!({e})"), _ => format!("({e}) || q") };
        t += &if form != 1 { format!("fn v{n}(p: bool, q: bool, a: felt, b: felt, x: u32, y: u32) -> bool {{ return {e}; }}\n") } else { format!("fn i{n}(p: bool, q: bool, a: felt, b: felt, x: u32, y: u32) -> felt {{ if ({e}) {{ return a; }} return b; }}\n") }; n += 1; }
    run(&t, 9);
}
/// what surrounds two statements (or runs of statements)
fn shape(a: &str, b: &str, z: &str, one: &str, quick: &[u32]) -> String {
    match if thorough() { choose("shape", 9) as u32 } else { quick[choose("shape", quick.len())] } {
        0 => format!("{a} {b}\n"),
        1 => format!("let i{z} = 2{one}; while i{z} != 0{one} {{ {a} {b} i{z} = i{z} - 1{one}; }}\n"),
        2 => format!("if p {{ {a} }} else {{ {b} }}\n"),
        3 => format!("for (let i{z} = 0{one}; i{z} != 2{one}; i{z} = i{z} + 1{one}) {{ {a} if p {{ continue; }} {b} }}\n"),
        4 => format!("let j{z} = 0{one}; loop {{ {a} if j{z} == 1{one} {{ break; }} j{z} = j{z} + 1{one}; {b} }}\n"),
        5 => format!("if p {{ {a} }} {b}\n"),
        6 => format!("let i{z} = 3{one}; while i{z} != 0{one} {{ i{z} = i{z} - 1{one}; if p {{ {a} continue; }} else if i{z} == 1{one} {{ {b} }} else {{ p = !p; }} }}\n"),
        7 => format!("for (let i{z} = 0{one}; i{z} != 2{one}; i{z} = i{z} + 1{one}) {{ for (let k{z} = i{z}; k{z} != 2{one}; k{z} = k{z} + 1{one}) {{ {a} }} {b} }}\n"),
        _ => format!("if !p {{ {a} }} else {{ if p {{ {b} }} {a} }} {b}\n"),
    }
}
fn two(l: &[&str], one: &str, quick: &[u32]) -> String { let a = l[choose("s0", l.len())]; let b = l[choose("s1", l.len())]; let t = shape(a, b, "", one, quick); if thorough() { format!("{t} {}\n", l[choose("s2", l.len())]) } else { t } }
/// statements: assignments, shadowing, blocks, branches and loops, in all pairs and surroundings
pub fn h_stmts() {
    let t = two(&["x = x + y;", "let x = y; y = x + 2;", "y = x;", "if p { x = 3; } else { y = x * 2; }", "if x == y { return x; }", "let z = x; x = y; y = z;", "{ let x = 7; y = y + x; }", "for (let i = 0; i != 2; i = i + 1) { x = x + i; }", "while y != 4 { y = 4; if p { break; } x = 9; }",
        "p = !p;", "if p { if x != 2 { y = 5; } else { x = 6; } }", "y = x - y; x = x - y;", "let y = x * 3; x = y;", "let k = 0; loop { k = k + 1; if k == 2 { break; } if p { continue; } x = x + 1; }", "if x == 1 { y = 2; } else if p { y = n; } else if x != 5 { x = 1; }"], "", &[0, 1, 2, 3, 4, 5, 6]);
    run(&format!("fn f(n: felt, p: bool) -> felt {{ let x = n; let y = 1;\n{t}return x + y * 10; }}"), 40);
}
/// the same with u32 numbers, whose comparisons decide branches and loops
pub fn h_stmts_u32() {
    let t = two(&["x = x + y;", "let x = y; y = x + 2;", "if x < y { x = 3; } else { y = x & 255; }", "if x == m { return x; }", "let z = x; x = y; y = z;", "for (let i: u32 = 0; i < 2; i = i + 1) { x = x + i; }", "while y > 4 { y = 4; if p { break; } x = x | 9; }",
        "p = x <= y;", "y = x - y; x = x - y;", "let b = x >= 70000; if b && p { y = x / 3; }", "let k: u32 = 65535; loop { k = k + 1; if k > 65536 { break; } if p { continue; } x = x ^ k; }", "if m < 1 { y = 2; } else if p { y = m; } else if x > 65536 { x = 1; }"], "u32", &[0, 1, 2, 3, 4, 5, 6]);
    run(&format!("fn f(n: u32, m: u32, p: bool) -> u32 {{ let x = n; let y: u32 = 1;\n{t}return x + y * 65539; }}"), 40);
}
/// statements on structs and tuples, kept, copied, taken apart, passed and returned
pub fn h_aggr() {
    let t = two(&["s.a = s.a + t.t.0;", "s.b = t.s.b;", "t.s = s;", "s = t.s;", "t.t.0 = s.a;", "let (x, y) = t.t; t.t = (x + 1, y);", "t = _swap(t);", "s = _mk(t.t.0, s.b);", "let u = s; s.a = 4; t.t.0 = u.a; ", "let (v, w) = _two(t.s); s = S { a: w, b: v };", "while t.e { t.e = false; s.b = s.b + 1; }", "let u = s; u.a = 8; t.t.1 = u.b;", "if t.s.b == s.b { return t; }", "let q = (s, t.t); t.s = q.0; s.a = q.1.0;", "let u = s; s = t.s; t.s = u;"], "", &[0, 1, 3, 5]);
    run(&format!("struct S {{ a: felt, b: u32 }}\nstruct T {{ s: S, t: (felt, u32), e: bool }}\nfn _mk(x: felt, y: u32) -> S {{ return S {{ b: y, a: x }}; }}\nfn _swap(t: T) -> T {{ t.s.a = t.t.0; return t; }}\nfn _two(s: S) -> (u32, felt) {{ return (s.b, s.a); }}\nfn f(n: felt, m: u32, p: bool) -> T {{ let s = S {{ a: n, b: m }}; let t = T {{ s: _mk(3, 5), t: (n, 9), e: p }};\n{t}t.t.0 = t.t.0 + s.a; t.t.1 = s.b; return t; }}"), 40);
}
/// the same on aggregates that are parameters, or handed on to functions that change them
pub fn h_aggr_par() {
    let t = two(&["r = s.a; s.a = 5;", "let k = t; t.0.a = r; r = k.0.a;", "_set(s);", "s = _set(s);", "let u = s; s.b = (7, m); m = u.b.1;", "t.1 = s;", "t = (s, t.0);", "let (v, w) = t; v.a = w.a; t = (w, v);", "let old = s.b; s.b.1 = 9; r = r + old.0; m = old.1;", "if s.b.1 == m { s = t.0; }", "r = _get(t) + r;", "s.b = t.1.b; t.1.b.0 = 3;"], "", &[0, 2, 3, 4]);
    run(&format!("struct S {{ a: felt, b: (felt, u32) }}\nfn _set(s: S) -> S {{ s.a = s.a + 1; s.b.0 = 2; return s; }}\nfn _get(t: (S, S)) -> felt {{ let x = t.0.a; t.0 = t.1; return x + t.0.a * 3; }}\nfn f(s: S, t: (S, S), m: u32, p: bool) -> ((S, S), S, felt, u32) {{ let r = 1;\n{t}return (t, s, r, m); }}"), 40);
}
/// statements on arrays, of numbers and of structs
pub fn h_array() {
    let ty = ["felt", "u32"][choose("type", 2)];
    let t = two(&["b[1] = a[0];", "b[h] = v;", "a[h] = a[1] + b[2];", "_set(b, h, 5); _set(a, 1, v);", "v = _get(a, h) + c[1];", "for (let k = 0; k != 3; k = k + 1) { b[k] = a[k]; }", "if v == c[0] { b[0] = 1; } else { a[0] = b[0]; }", "c[0] = b[h + 0]; c[1] = c[0];", "h = 0;", "let x = b[0]; b[0] = v; v = x;", "let d = [v, b[0], a[1]]; d[2] = d[0]; b[1] = d[2] + d[1];", "let e = b; e[0] = v;"], "", &[0, 1, 2, 6]);
    run(&format!("fn _set(a: [{ty}; 3], i: felt, v: {ty}) {{ a[i] = v; return; }}\nfn _get(a: [{ty}; 3], i: felt) -> {ty} {{ return a[i]; }}\nfn f(a: [{ty}; 3], v: {ty}, h: felt, p: bool) -> ({ty}, {ty}, {ty}) {{ let b: [{ty}; 3] = [v, 2, 3]; let c: [{ty}; 2] = [7; 2];\n{t}return (b[0] + c[0] * 3, b[1] + c[1] * 3, b[2] + v * 3); }}"), 40);
}
pub fn h_array_aggr() {
    let t = two(&["s = a[0];", "a[1] = s;", "a[0].b = n; s.b = a[1].b;", "let u = a[h]; a[h].a = 9; s.a = u.a;", "let d = [s, a[0]]; d[1].a = 3; s = d[0]; n = d[1].a + d[1].b;", "_fill(a, n);", "let q = (s, a[1]); q.0.a = 4; a[1] = q.0; s = q.1;", "a[0] = P { a: n, b: a[1].a };", "let x = a[0]; a[0] = a[1]; a[1] = x;", "let d: [P; 2] = [P { a: n, b: 2 }; 2]; d[0].a = 3; n = d[1].a + d[0].b; s = d[0];", "if a[0].a == s.a { a[0].a = n; }"], "", &[0, 3, 4, 5]);
    run(&format!("struct P {{ a: felt, b: felt }}\nfn _fill(a: [P; 2], n: felt) {{ a[0].a = n; a[1] = P {{ a: n + 1, b: a[0].b }}; return; }}\nfn f(a: [P; 2], s: P, n: felt, h: felt, p: bool) -> (P, P, P, felt) {{\n{t}return (a[0], a[1], s, n); }}"), 40);
}
/// numbers without a suffix take their type from where they stand
pub fn h_literal() {
    // an operation on literals alone is a u32 one only where an annotation says so (see h_literal_context)
    let any = ["7", "x + 1", "(3)", "4294967295", "x - 5", "2147483648", "65536 * x", "7u32 + 2u32"]; let annotated = ["1 + 2", "5 - 2 + x", "2 * (1 + 3)", "65536 & 3", "x - (2 + 3)", "1 - 2"];
    let v = choose("value", 14); let e = if v < 8 { any[v] } else { annotated[v - 8] }; let place = choose("place", 9); if (v >= 8) & ![0, 1, 4, 6].contains(&place) { return reach("end") }
    let t = match place {
        0 => format!("fn f(x: u32) -> u32 {{ let y: u32 = {e}; return y; }}"), 1 => format!("fn f(x: u32) -> u32 {{ return {e}; }}"), 2 => format!("fn _g(n: felt, y: u32) -> u32 {{ return y; }}\nfn f(x: u32) -> u32 {{ return _g(3, {e}); }}"),
        3 => format!("fn f(x: u32) -> (u32, u32) {{ let y: u32 = x; y = {e}; return (x, y); }}"), 4 => format!("struct S {{ k: felt, a: u32 }}\nfn f(x: u32) -> S {{ return S {{ a: {e}, k: 5 }}; }}"), 5 => format!("fn f(x: u32) -> u32 {{ let a: [u32; 2] = [{e}, x]; a[1] = {e}; return a[0] + a[1] * 2; }}"),
        6 => format!("fn f(x: u32) -> (felt, u32) {{ let t: (felt, u32) = (3, {e}); return t; }}"), 7 => format!("struct S {{ a: u32 }}\nfn f(x: u32) -> u32 {{ let s = S {{ a: x }}; s.a = {e}; return s.a; }}"), _ => format!("fn f(x: u32) -> u32 {{ if x == {e} {{ return 1; }} return x; }}"),
    };
    run(&(t + "\n"), 9);
}
/// literals whose type comes from an assigned place or a parameter
pub fn h_literal_context() {
    let t = ["fn f(x: u32) -> u32 { let a: [u32; 2] = [x, x]; a[1] = 1 + 2; return a[1]; }\n", "fn _g(n: felt, y: (u32, felt)) -> felt { return y.1; }\nfn f(x: u32) -> felt { return _g(3, (1, 4)); }\n", "fn f(x: u32) -> (u32, u32) { let t: (u32, u32) = (x, x); t = (1 + 2, x); return t; }\n", "fn f(x: u32) -> u32 { let y: u32 = x; y = 3; return y; }\n", "fn _g(n: felt, y: u32) -> u32 { return y; }\nfn f(x: u32) -> u32 { return _g(3, 1); }\n"][choose("text", 5)];
    run(t, 9);
}
/// casts, negation, assertions, constants
pub fn h_misc() {
    let t = ["fn f(x: u32) -> felt { return x as felt; }\n", "fn f(x: u32, n: felt) -> felt { let y = (x as felt) + n; return y * 2; }\n", "fn f(n: felt) -> felt { return -n; }\nfn g(n: felt) -> felt { return 3 - -n; }\nfn h(n: felt) -> felt { return -(n + -1); }\n", "fn f(n: felt, m: felt) -> felt { assert(n == m); return n + 1; }\n", "fn f(n: u32, m: u32) -> u32 { assert(n == m); return m; }\n", "fn f(p: bool, n: felt) -> felt { assert(p); return n; }\nfn g(p: bool) -> bool { assert(!p); return p; }\nfn h(p: bool, q: bool, n: u32) -> u32 { assert((p || q) && n < 9); return n; }\n",
        "const C = 5;\nconst D: u32 = 70000;\nconst E = C + 2;\nfn f(n: felt) -> felt { return n * C + E; }\nfn g(n: u32) -> u32 { if n < D { return D; } return n; }\nfn h() -> felt { const K = C; let k = K; k = k + 1; return k + C; }\n", "fn f(n: u32, m: u32) -> u32 { return n / m; }\nfn g(n: u32, m: u32) -> u32 { return n % m; }\nfn h(n: u32, m: u32, p: bool) -> u32 { if p { return n / m; } return m; }\n",
        "fn f(n: felt, m: felt, p: bool) -> felt { if p { assert(n == 3); } else { assert(m == n); } return n; }\n", "const A: [felt; 3] = [4, 5, 6];\nconst B: [u32; 2] = [70000, 2];\nfn f(i: felt) -> felt { return A[i]; }\nfn g(i: felt, x: u32) -> u32 { return B[i] + x; }\nfn h(i: felt) -> felt { let k = A; return k[i] + A[1]; }\n",
        "fn f(p: bool, n: felt) -> felt { let r = 0; if p { r = n; assert(r == 2); } return r + n; }\n", "fn f(n: u32) -> u32 { let k: u32 = 3; while k != n { k = k + 1; assert(k < 6); } return k; }\n"][choose("text", 12)];
    run(t, 12);
}
/// functions that call each other, themselves, and use what was computed before the call after it
pub fn h_recursion() {
    let t = ["fn f(n: felt) -> felt { if n == 0 { return 1; } return n + f(n - 1); }\n", "fn f(n: u32) -> u32 { if n < 2 { return n; } return f(n - 1) + f(n - 2); }\n", "fn f(n: felt) -> bool { if n == 0 { return true; } return _odd(n - 1); }\nfn _odd(n: felt) -> bool { if n == 0 { return false; } return f(n - 1); }\n",
        "fn _g(a: felt) -> felt { return a + 1; }\nfn f(n: felt) -> felt { let x = n + 2; let y = _g(x); let z = _g(y) + x; return _g(_g(z) + y) + x; }\n", "fn _g(a: felt, b: u32) -> (u32, felt) { return (b + 1, a); }\nfn f(n: felt, m: u32) -> (u32, felt) { let (x, y) = _g(n, m); let (v, w) = _g(y + n, x + m); return (v + x, w - y); }\n", "fn _h(a: u32) { let x = a; x = x + 1; return; }\nfn f(a: u32) -> u32 { let y = a * 3; _h(y); _h(a); let z = y + 1; _h(z); return z + a; }\n",
        "fn _g(a: felt, b: felt) -> felt { return a - b; }\nfn f(n: felt, m: felt) -> felt { let x = n - m; let y = x + 1; return _g(y, x) + _g(x, y) * _g(_g(m, n), y); }\n", "fn _m(a: u32, b: u32) -> u32 { if a < b { return b; } return a; }\nfn f(a: u32, b: u32, c: u32) -> u32 { let ab = a ^ b; return _m(_m(ab, b), _m(c, ab)) + ab; }\n", "fn _acc(n: felt, s: (felt, u32)) -> (felt, u32) { if n == 0 { return s; } return _acc(n - 1, (s.0 + n, s.1 + 1)); }\nfn f(n: felt, k: u32) -> (felt, u32) { let s = (n, k); let r = _acc(2, s); return (r.0 - s.0, r.1 ^ s.1); }\n",
        "fn _v(p: bool) -> bool { return !p; }\nfn f(p: bool, n: felt) -> felt { if _v(p) { if _v(_v(p)) { return 1; } return n; } let q = _v(p) || p; if q { return n + 1; } return 0; }\n", "fn _n() -> felt { return 4; }\nfn f(n: felt) -> felt { let x = _n(); let y = _n() + x; while y != 0 { y = y - _n(); x = x + n; } return x; }\n"][choose("text", 11)];
    run(t, 12);
}
/// cells that are allocated, in number and through aliases
pub fn h_new() {
    let t = ["fn f(n: felt, m: felt) -> felt { let p: felt* = new felt[3]; p[0] = n; p[1] = m; p[2] = p[0] + p[1]; return p[2] * 2 + p[1]; }\n", "fn f(n: u32, m: u32) -> u32 { let p: u32* = new u32[2]; p[1] = n; p[0] = m; return p[0] - p[1]; }\n", "fn f(n: felt, m: felt) -> felt { let p: felt* = new felt[2]; let q: felt* = new felt[2]; p[0] = n; p[1] = n + 1; q[0] = m; q[1] = m + 1; return p[0] + p[1] * 3 + q[0] * 5 + q[1] * 7; }\n",
        "fn _fill(p: felt*, n: felt) { p[0] = n; p[1] = n * 2; return; }\nfn f(n: felt) -> felt { let p: felt* = new felt[2]; _fill(p, n); return p[0] + p[1]; }\n", "struct S { a: felt, b: u32 }\nfn f(n: felt, m: u32) -> S { let p: S* = new S[2]; p[0] = S { a: n, b: m }; p[1] = p[0]; p[1].a = 3; p[0].b = p[1].b + 1; return S { a: p[0].a + p[1].a, b: p[0].b }; }\n", "fn f(n: felt, i: felt) -> felt { let p: felt* = new felt[3]; p[0] = 1; p[1] = 2; p[2] = 3; p[i] = n; return p[0] + p[1] * 4 + p[2] * 9; }\n",
        "fn _mk(n: felt) -> felt* { let p: felt* = new felt[2]; p[0] = n; p[1] = n + 1; return p; }\nfn f(n: felt, m: felt) -> felt { let p = _mk(n); let q = _mk(m); p[1] = q[0]; return p[0] + p[1] * 3 + q[1] * 5; }\n", "fn f(k: felt, n: felt) -> felt { let s = 1; for (let i = 0; i != 2; i = i + 1) { let p: felt* = new felt[k]; let q: felt* = new felt[1]; q[0] = n; if k != 0 { p[k - 1] = 7; } s = s + q[0]; } return s; }\n", "fn f(n: u32, c: bool) -> u32 { let p: u32* = new u32[1]; let q = p; p[0] = n; if c { q[0] = 5; } else { q = new u32[1]; q[0] = 6; } return p[0] + q[0] * 2; }\n"][choose("text", 9)];
    run(t, 12);
}
const TYPES: [&str; 8] = ["felt", "u32", "bool", "P", "(u32, felt)", "Q", "[u32; 2]", "(bool, (felt, u32))"];
/// parameters and results of all types, through calls of calls
pub fn h_call() {
    let (x, y, r) = (TYPES[choose("x", 8)], TYPES[choose("y", 8)], choose("ret", 4)); let rt = |k: usize| if k == 0 { x.to_string() } else if k == 1 { y.to_string() } else if k == 2 { format!("({y}, felt, {x})") } else { format!("({x}, {y})") };
    if (r >= 2) & (x.starts_with('[') | y.starts_with('[')) | (r == 0) & x.starts_with('[') | (r == 1) & y.starts_with('[') { return reach("end") }
    let e = ["x", "y", "(y, n, x)", "(x, y)"][r]; let ret = rt(r);
    let t = format!("struct P {{ a: u32, b: felt }}\nstruct Q {{ p: P, q: bool, r: (felt, felt) }}\nfn _id(n: felt, x: {x}, y: {y}) -> {ret} {{ return {e}; }}\nfn _through(y: {y}, n: felt, x: {x}) -> {ret} {{ let k: u32 = 3; let r = _id(n, x, y); k = k + 1; return r; }}\nfn f(x: {x}, n: felt, y: {y}) -> {ret} {{ let a = n + 1; let r = _through(y, a, x); let s = _through(y, n, x); if a == 5 {{ return s; }} return r; }}\nfn g(x: {x}, n: felt, y: {y}) -> {ret} {{ return _through(y, n, x); }}\n"); run(&t, 14);
}
/// calls that matter for what they do, whether or not their result is used, among expressions that repeat
pub fn h_effects() {
    let t = two(&["_inc(a, x);", "let _z = _inc(a, y);", "let u = x + y; let v = x + y; r = r + u * 3 + v;", "a[1] = x + y;", "_chk(x, y);", "r = r + a[0] + _inc(a, 1);", "let t = (x, y); let s = (x, y); t.0 = r; r = t.0 - s.1 + s.0;", "_void(a);", "r = _inc(a, _inc(a, r));", "let b = [x, y]; let c = [x, y]; _void(b); r = r + b[0] * 3 + c[0]; x = x + y; y = x + y;", "let _k = _mk(x); let q = _mk(x); q[0] = r; r = q[1];", "let s = S { a: x, b: x }; let t = S { a: x, b: x }; _inc(a, s.a); t.a = 2; r = r + s.a - t.b;", "let (u, v) = _two(a, x); let _w = _two(a, y); r = r + u + x + y; a[0] = x + y;", "x = _inc(a, x) + x; if x + y == r { r = x + y; }"], "", &[0, 1, 2, 3]);
    run(&format!("struct S {{ a: felt, b: felt }}\nfn _inc(a: [felt; 2], n: felt) -> felt {{ a[0] = a[0] + n; return a[1]; }}\nfn _void(a: [felt; 2]) {{ a[0] = a[1] + 1; return; }}\nfn _chk(x: felt, y: felt) -> bool {{ assert(x != y); return true; }}\nfn _mk(x: felt) -> felt* {{ let p: felt* = new felt[2]; p[1] = x; return p; }}\nfn _two(a: [felt; 2], x: felt) -> (felt, felt) {{ a[1] = x; return (x + 1, a[0]); }}\nfn f(x: felt, y: felt, p: bool) -> (felt, felt, felt) {{ let a = [x, 3]; let r = 1;\n{t}return (a[0], a[1], r + x + y); }}"), 40);
}
