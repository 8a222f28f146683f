//! S06: modules and imports; S07: incremental analysis.
use crate::sem::*;
use cairo_m_compiler_semantic::db::module_all_diagnostics;
use cairo_m_compiler_semantic::delta_diagnostics::DeltaDiagnosticsTracker;
use salsa::Setter;
type Lines = Vec<String>;
fn show(ds: &[Diagnostic]) -> Lines { let mut v: Lines = ds.iter().map(|d| format!("{:?} {:?} {} {}..{} {} {:?}", d.severity, d.code, d.file_path, d.span.start, d.span.end, d.message, d.related_spans.len())).collect(); v.sort(); v }
fn names(n: usize) -> Vec<String> { (0..n).map(|i| format!("m{}", (i * 2 + 1) % n)).collect() }
/// any import graph: accepted iff there is no cycle; a mistake in one module is reported there and only there
pub fn h_mod_graph() {
    let n = tier(3, 4); let nm = names(n); let mut adj = vec![vec![false; n]; n];
    for i in 0..n { for j in 0..n { if (i != j) | (n == 3) { adj[i][j] = bool(&format!("e{i}{j}")); } } }
    let wrong = if thorough() { choose("wrong", 2) * (n - 1) } else { choose("wrong", n + 1) };
    let mut reachable = adj.clone(); for k in 0..n { for i in 0..n { for j in 0..n { if reachable[i][k] & reachable[k][j] { reachable[i][j] = true } } } }
    let cyclic = (0..n).any(|i| reachable[i][i]);
    let texts: Vec<String> = (0..n).map(|i| { let mut t = String::new(); let mut sum = "1".to_string();
        for j in 0..n { if adj[i][j] { t += &format!("use {}::{{f{j}, S{j}}};\n", nm[j]); sum += &format!(" + f{j}(S{j} {{ v: 1 }}).v"); } }
        t += &format!("struct S{i} {{ v: felt }}\nfn f{i}(s: S{i}) -> S{i} {{ return S{i} {{ v: s.v + {sum} }}; }}\n"); if wrong == i { t += &format!("const X{i}: bool = 1u32;\n"); } t }).collect();
    let files: Vec<(&str, &str)> = (0..n).map(|i| (nm[i].as_str(), texts[i].as_str())).collect(); for (a, b) in &files { note(&format!("{a}:\n{b}")) }
    let db = SemanticDatabaseImpl::default(); let c = new_crate(&db, &files); let ds = project_validate_semantics(&db, c).all().to_vec(); for d in &ds { note(&d.message) }
    if cyclic { reach("cycle"); check(ds.iter().any(is_error), "a cycle of imports is reported"); check(ds.iter().all(|d| !is_error(d) || d.message.contains("yclic")), "in a cycle of imports nothing else is reported");
        for i in 0..n { let v = module_all_diagnostics(&db, c, nm[i].clone()); check(v.has_errors(), "the modules of a crate with an import cycle are not accepted"); } return }
    reach("no cycle");
    for i in 0..n { let e = error_lines(&ds, &nm[i], &texts[i], is_error); let last = texts[i].bytes().filter(|b| *b == b'\n').count() - 1;
        check(e == if wrong == i { vec![last] } else { vec![] }, "exactly the mistake in a module is reported, in that module");
        let own: Vec<Diagnostic> = ds.iter().filter(|d| d.file_path == format!("{}.cm", nm[i])).cloned().collect();
        check(show(&own) == show(module_all_diagnostics(&db, c, nm[i].clone()).all()), "a module on its own has the diagnostics that it has as part of the crate"); }
    check(ds.iter().all(|d| nm.iter().any(|m| d.file_path == format!("{m}.cm"))), "every diagnostic names a file of the crate");
}
/// what is imported must exist; what is used must be imported
pub fn h_mod_use() {
    let mods = ["lib", "a::b", "nope"]; let items = ["f", "S", "K", "zz", "g"]; let has = |m: usize, i: usize| match m { 0 => i < 3, 1 => (i == 4) | (i == 0), _ => false };
    let n = tier(2, 3); let mut p = Prog::default(); let mut seen: Vec<(usize, usize)> = vec![]; let braces = bool("braces");
    for k in 0..n { let m = choose(&format!("m{k}"), 3); let i = choose(&format!("i{k}"), 5); let dup = seen.iter().any(|s| s.1 == i); if dup { return } seen.push((m, i));
        p.add(&if braces { format!("use {}::{{{}}};", mods[m], items[i]) } else { format!("use {}::{};", mods[m], items[i]) }, !has(m, i)); }
    let lib = "fn f(x: felt) -> felt { return x; }\nstruct S { v: u32 }\nconst K = 3;\nfn F(x: u32) -> u32 { return x; }\nstruct s { v: u32 }\nconst k = 3;\nfn ff(x: u32) -> u32 { return x; }"; let b = "fn g(x: u32) -> u32 { return x; }\nfn f(x: bool) -> bool { return x; }";
    p.add("fn h(w: u32) -> felt {", false);
    let ok = |m: usize, i: usize| seen.contains(&(m, i)) & has(m, i); let lost = |i: usize| seen.iter().any(|s| (s.1 == i) & !has(s.0, i));
    let uses: [(usize, usize, &str); 12] = [(0, 0, "let _a: felt = f(1);"), (1, 0, "let _b: bool = f(true);"), (0, 1, "let _c = S { v: w };"), (0, 1, "let _d: S* = new S[2];"), (0, 2, "let _e: felt = K;"), (1, 4, "let _f: u32 = g(w);"), (3, 3, "let _g = zz;"), (0, 2, "const _H: felt = K + 1;"), (3, 9, "let _i = F(w);"), (3, 9, "let _j = s { v: w };"), (3, 9, "let _k = k;"), (3, 9, "let _l = ff(w);")];
    for (m, i, t) in uses { let bad = !ok(m, i); let l = p.n; p.add(t, bad); if bad & lost(i) { p.bad.retain(|x| *x != l); p.maybe.push(l) }
        // an undeclared name is reported once
        if bad & !lost(i) & !seen.iter().any(|s| s.1 == i) & (m != 3) & uses.iter().any(|u| (u.1 == i) & (u.2.as_ptr() < t.as_ptr())) { p.bad.retain(|x| *x != l); p.maybe.push(l) } }
    p.add("return 1;\n}", false); p.others = vec![("lib".into(), lib.into()), ("a::b".into(), b.into())];
    let ds = p.judge("imports"); check(ds.iter().all(|d| !is_error(d) | (d.file_path == "main.cm")), "the modules without a mistake are not reported");
}
const LIB: &str = "struct P { x: felt, y: u32 }\nconst K: felt = 3;\nfn g(a: felt, b: u32) -> bool { return a == 1; }\nfn h() -> P { return P { x: 1, y: 2 }; }\nfn z() { return; }\nfn t() -> (felt, u32) { return (1, 2); }\nfn ps(p: P) -> [P; 2] { return [p, p]; }\nconst A: [u32; 3] = [1, 2, 3];\nstruct R { p: P, n: bool }\nfn r(r: R) -> R { return r; }\nfn q(n: felt) -> P* { return new P[n]; }";
fn values() -> Vec<(&'static str, T)> { vec![("K", F), ("h()", P), ("g(a, b)", B), ("P { x: 1, y: 2 }", P), ("1", Lit), ("b", U), ("h().y", U), ("A[1]", U), ("t()", Tup(vec![F, U])), ("ps(h())[0]", P), ("r(w).p", P), ("w.p.x", F), ("w.n", B), ("z()", Tup(vec![])), ("q(K)", ptr(P)), ("A", arr(U, 3)), ("ps(h())", arr(P, 2)), ("q(2)[K].y", U), ("t().1", U), ("K + a", F), ("(K, b)", Tup(vec![F, U])), ("A[K] + b", U), ("g", Fun), ("h().x == K", B), ("[h(), w.p]", arr(P, 2))] }
/// everything imported has the type it has where it is defined
pub fn h_mod_types() {
    let (v, vt) = pick("value", &values()); let place = choose("place", 4);
    let mut p = Prog::new("use lib::{P, K, g, h, z, t, ps, A, R, r, q};"); p.others = vec![("lib".into(), LIB.into())];
    let ts = [F, U, B, P, Tup(vec![F, U]), arr(U, 3), arr(P, 2), ptr(P), Tup(vec![])];
    if place == 3 { for w in &ts { p.add(&format!("fn r{} (a: felt, b: u32, w: R) -> {} {{", p.n, w.text()), false).add(&format!("return {v};"), !vt.is(w) | (v == "A")).add("}", false); } p.judge("return of an imported type"); return }
    p.add("fn f(a: felt, b: u32, w: R) {", false);
    match place {
        0 => { for w in &ts { p.add(&format!("let _x: {} = {v};", w.text()), !vt.is(w)); } }
        1 => { p.add(&format!("let _b = g({v}, 1);"), !vt.is(&F)).add(&format!("let _b = g(1, {v});"), !vt.is(&U)).add(&format!("let _b = ps({v});"), !vt.is(&P)).add(&format!("let _b = r({v});"), true).add(&format!("z({v});"), true).add(&format!("let _b = q({v});"), !vt.is(&F)).add(&format!("let _b = g({v});"), true).add(&format!("let _b = K({v});"), true).add(&format!("let _b = P({v});"), true); }
        _ => { p.add(&format!("let _s = P {{ x: {v}, y: 1 }};"), !vt.is(&F)).add(&format!("let _s = P {{ x: 1, y: {v} }};"), !vt.is(&U)).add(&format!("let _s = P {{ y: {v} }};"), true).add(&format!("let _s = R {{ p: {v}, n: true }};"), !vt.is(&P)).add(&format!("let _s = R {{ n: {v}, p: w.p }};"), !vt.is(&B)).add(&format!("w.p = {v};"), !vt.is(&P)).add(&format!("w.p.y = {v};"), !vt.is(&U)).add(&format!("K = {v};"), true).add(&format!("A[0] = {v};"), true).add(&format!("let _m = ({v}).y;"), vt != P).add(&format!("let _m = ({v}).w;"), true); }
    }
    p.add("return;\n}", false); p.judge("imported types");
}
/// a type is the same however it is imported, and differs from others of its name; local names hide imported ones
pub fn h_mod_names() {
    let deep = choose("deep", 2) == 1; let m1 = if deep { "x::one" } else { "one" };
    let mut p = Prog::new(&format!("use {m1}::{{P, mk}};\nuse two::{{same, other, K}};\nuse three::G;")); 
    p.others = vec![(m1.into(), "struct P { x: felt }\nfn mk() -> P { return P { x: 1 }; }".into()), ("two".into(), format!("use {m1}::P;\nuse four::Q;\nfn same(p: P) -> P {{ return p; }}\nfn other() -> Q {{ return Q {{ p: 1u32 }}; }}\nconst K = 1u32;")), ("three".into(), "struct P { x: felt }\nstruct G { p: P }".into()), ("four".into(), "struct Q { p: u32 }".into())];
    let local = choose("local", 5); let (a, at) = pick("value", &[("mk()", "P"), ("same(mk())", "P"), ("P { x: 2 }", "P"), ("g.p", "3P"), ("other()", "Q"), ("other().p", "u32"), ("K", "u32")]);
    let at = match (local, a) { (1, "K") => "felt", (2, "K") => "bool", _ => at };
    match local { 1 => { p.add("fn f(K: felt, g: G) {", false); } 2 => { p.add("fn f(g: G) {\nlet K = true;", false); } 3 => { p.add("fn f(g: G) {\nif true { let K = true; let _k = K; }", false); } 4 => { p.add("fn k(K: felt) -> felt { let K = true; if K { return 1; } return 2; }\nfn f(g: G) {", false); } _ => { p.add("fn f(g: G) {", false); } }
    p.add(&format!("let _a: P = {a};"), at != "P").add(&format!("let _b: u32 = {a};"), at != "u32").add(&format!("let _c: felt = {a};"), at != "felt").add(&format!("let _d: bool = {a};"), at != "bool").add(&format!("let _e = same({a});"), at != "P").add(&format!("let _g = G {{ p: {a} }};"), at != "3P").add(&format!("let _f = [mk(), {a}];"), at != "P").add("return;\n}", false);
    p.judge("names of imported items");
}
fn fresh(files: &[(&str, &str)]) -> (Lines, Vec<Lines>) { let db = SemanticDatabaseImpl::default(); let c = new_crate(&db, files); (show(project_validate_semantics(&db, c).all()), files.iter().map(|f| show(module_all_diagnostics(&db, c, f.0.to_string()).all())).collect()) }
const MAIN: [&str; 6] = ["use lib::f;\nfn g() -> felt { return f(1); }\n", "use lib::{f, S};\nfn g() -> felt { let s: S = S { v: 1 }; return f(s.v); }\n", "fn g() -> u32 { let x = 1; return 2; }\n", "fn g( -> u32 { return 2; }\n", "use lib::f;\nfn g() -> bool { return f(1) == K; }\n", ""];
const LIBS: [&str; 6] = ["fn f(x: felt) -> felt { return x; }\nstruct S { v: felt }\n", "\n\nfn f(x: u32) -> felt { return 1; }\nstruct S { v: u32 }\n", "struct S { w: felt }\n", "use main::g;\nfn f(x: felt) -> felt { return x; }\n", "fn f(x: felt) -> felt { return y; }\nfn f() { return; }\n", "struct f {\n"];
/// after any edits every answer is the one that a fresh analysis of the current texts gives
pub fn h_incr() {
    let k = tier(4, 6); let steps = tier(2, 3); let mut m = choose("main", k); let mut l = choose("lib", k); let mut third = false; let mut gone = false;
    let mut db = SemanticDatabaseImpl::default(); let c = new_crate(&db, &[("main", MAIN[m]), ("lib", LIBS[l])]); let other = new_crate(&db, &[("main", "fn o() -> felt { return q; }\n")]); let mut tracker = DeltaDiagnosticsTracker::new();
    for s in 0..=steps {
        let mut files: Vec<(&str, &str)> = vec![("main", MAIN[m])]; if !gone { files.push(("lib", LIBS[l])) } if third { files.push(("third", "use lib::f;\nfn h(a: bool) { return; }\n")) }
        for (a, b) in &files { note(&format!("{a}:\n{b}")) }
        let (whole, each) = fresh(&files);
        if s % 2 == 1 { check(show(tracker.get_project_diagnostics(&db, other).all()).len() == 1, "diagnostics of another crate"); }
        for (f, want) in files.iter().zip(&each) { check(show(module_all_diagnostics(&db, c, f.0.to_string()).all()) == *want, "after edits a module has the diagnostics of a fresh analysis") }
        check(show(project_validate_semantics(&db, c).all()) == whole, "after edits the crate has the diagnostics of a fresh analysis");
        let mut all: Lines = each.concat(); all.sort(); for _ in 0..2 { check(show(tracker.get_project_diagnostics(&db, c).all()) == all, "the tracked diagnostics are those of a fresh analysis") }
        if s == steps { reach("edited"); break }
        let e = choose(&format!("e{s}"), 2 * k + 2);
        if e < k { m = e; let f = *c.modules(&db).get("main").unwrap(); f.set_text(&mut db).to(MAIN[m].to_string()); }
        else if e < 2 * k { l = e - k; if gone { return } let f = *c.modules(&db).get("lib").unwrap(); f.set_text(&mut db).to(LIBS[l].to_string()); }
        else if e == 2 * k { let mut ms = c.modules(&db).clone(); if gone { let f = File::new(&db, LIBS[l].to_string(), "lib.cm".to_string()); ms.insert("lib".into(), f); } else { ms.remove("lib"); } gone = !gone; c.set_modules(&mut db).to(ms); }
        else { let mut ms = c.modules(&db).clone(); if third { ms.remove("third"); } else { let f = File::new(&db, "use lib::f;\nfn h(a: bool) { return; }\n".to_string(), "third.cm".to_string()); ms.insert("third".into(), f); } third = !third; c.set_modules(&mut db).to(ms); }
    }
}
