//! S03: control flow.
use crate::sem::*;
#[derive(Clone, Copy, Default, PartialEq)]
struct Out { fall: bool, brk: bool }
/// statements of one line each; blocks by their kind: 0 plain, 1 if, 2 else, 3 loop, 4 while or for
struct Walk { stack: Vec<Frame>, dead: Vec<usize>, maybe: Vec<usize>, bad: Vec<usize>, inf: bool, line: usize, text: String }
/// `live`: control can be here; `lives`: by the simple rule that any break in a loop leaves it
struct Frame { kind: usize, live: bool, lives: bool, brk: bool, brks: bool, then: (bool, bool), loops: usize, chain: bool }
impl Walk {
    fn frame(&self) -> &Frame { self.stack.last().unwrap() }
    fn line(&mut self, t: &str) { self.text.push_str(t); self.text.push('\n'); self.line += 1; }
    /// a statement starts here
    fn begin(&mut self) { let f = self.frame(); let (l, s) = (f.live, f.lives); if !s { self.dead.push(self.line) } else if !l { self.maybe.push(self.line) } }
    fn open(&mut self, kind: usize) { let f = self.frame(); let loops = f.loops + (kind >= 3) as usize; self.stack.push(Frame { kind, live: true, lives: true, brk: false, brks: false, then: (true, true), loops, chain: false }); }
    fn leaf(&mut self, k: u64, ret: &str) { self.begin(); let l = self.line; let in_loop = self.frame().loops > 0;
        match k { 0 => self.line("let _a: felt = 1;"), 1 => self.line(ret), 2 => { if !in_loop { self.bad.push(l) } self.line("break;") } _ => { if !in_loop { self.bad.push(l) } self.line("continue;") } }
        let f = self.stack.last_mut().unwrap();
        if (k == 2) & in_loop { f.brk |= f.live; f.brks = true; }
        if (k == 1) | ((k >= 2) & in_loop) { f.live = false; f.lives = false; } }
    fn close(&mut self) { let f = self.stack.pop().unwrap(); self.line("}"); let t = self.stack.last_mut().unwrap();
        let (live, lives) = match f.kind { 0 => (f.live, f.lives), 1 => (true, true), 2 => (f.live | f.then.0, f.lives | f.then.1), 3 => (f.brk, f.brks), _ => (true, true) };
        if f.kind < 3 { t.brk |= f.brk & t.live; t.brks |= f.brks; }
        if f.kind == 3 { self.inf = true; }
        let t = self.stack.last_mut().unwrap(); t.live &= live; t.lives &= lives; if f.chain { self.end() } }
    /// the else of an `else if` ends with it
    fn end(&mut self) { let f = self.stack.pop().unwrap(); let t = self.stack.last_mut().unwrap(); let (live, lives) = (f.live | f.then.0, f.lives | f.then.1); t.brk |= f.brk & t.live; t.brks |= f.brks; t.live &= live; t.lives &= lives; if f.chain { self.end() } }
    fn elif(&mut self) { let f = self.stack.pop().unwrap(); self.line("} else if (c) {"); self.stack.push(Frame { kind: 2, live: true, lives: true, brk: f.brk, brks: f.brks, then: (f.live, f.lives), loops: f.loops, chain: f.chain }); self.stack.push(Frame { kind: 1, live: true, lives: true, brk: false, brks: false, then: (true, true), loops: f.loops, chain: true }); }
    fn els(&mut self) { let f = self.stack.pop().unwrap(); self.line("} else {"); self.stack.push(Frame { kind: 2, live: true, lives: true, brk: f.brk, brks: f.brks, then: (f.live, f.lives), loops: f.loops, chain: f.chain }); }
    fn step(&mut self, k: u64, ret: &str, cond: &str) { match k {
        0..=3 => self.leaf(k, ret),
        4 => { self.begin(); self.line("if (c) {"); self.open(1) } 5 => { self.begin(); self.line("{"); self.open(0) } 6 => { self.begin(); self.line("loop {"); self.open(3) } 7 => { self.begin(); self.line(cond); self.open(4) }
        8 => self.els(), 10 => self.elif(), _ => self.close() } }
}
pub fn h_flow() {
    let n = tier(3, 4); let mut ks = vec![]; let (mut depth, mut last_if): (i32, Vec<bool>) = (0, vec![]);
    for i in 0..n { let k = var(&format!("s{i}"), 8); assume(k < 11); if depth == 0 { assume(k != 9) } if last_if.last() != Some(&true) { assume((k != 8) & (k != 10)) } if ks.last() == Some(&0) { assume(k != 0) } let k = concretize(k);
        match k { 4..=7 => { depth += 1; last_if.push(k == 4) } 8 => { *last_if.last_mut().unwrap() = false } 9 => { depth -= 1; last_if.pop(); } _ => () } ks.push(k); }
    let conds = ["while (c) {", "for (let i = 0; i != 3; i = i + 1) {"]; let flip = thorough() && ks.contains(&7) && bool("for");
    let mut w = Walk { stack: vec![], dead: vec![], maybe: vec![], bad: vec![], inf: false, line: 0, text: String::new() }; let mut fns = vec![];
    // the last statement and a tail take every form, each in a function of its own
    for last in 0..11u64 { if (last == 9) & (depth == 0) | ((last == 8) | (last == 10)) & (last_if.last() != Some(&true)) { continue }
        for (ret, ty, tail) in [("return 1;", "felt", 4u64), ("return;", "()", 0), ("return 1;", "felt", 1)] {
            if (tail == 4) & (last != 1) & (last != 9) { continue }
            let at = w.line; w.inf = false; w.stack = vec![Frame { kind: 0, live: true, lives: true, brk: false, brks: false, then: (true, true), loops: 0, chain: false }];
            let cond = conds[(flip as usize + last as usize + ks.iter().sum::<u64>() as usize) % 2];
            w.line(&format!("fn f{at}(c: bool) -> {ty} {{ assert(c);")); for k in &ks { w.step(*k, ret, cond) } w.step(last, ret, cond);
            while w.stack.len() > 1 { if tail == 1 { w.step(1, ret, cond) } w.close() } if tail < 4 { w.leaf(tail, ret) }
            let f = w.frame(); fns.push((at, f.live, f.lives, w.inf)); w.line("}"); } }
    note(&w.text); let ds = analyse(&[("main", &w.text)]); for d in &ds { note(&format!("{} {}", d.span.start, d.message)) }
    let of = |c: DiagnosticCode| error_lines(&ds, "main", &w.text, |d| d.code == c);
    let miss = of(DiagnosticCode::MissingReturn); let un = of(DiagnosticCode::UnreachableCode); let mut out = of(DiagnosticCode::BreakOutsideLoop); out.extend(of(DiagnosticCode::ContinueOutsideLoop)); out.sort();
    for (at, live, lives, inf) in fns { let m = miss.contains(&at); if live { check(m, "a function whose end can be reached without a return is rejected"); reach("missing return") } if !inf & !lives { check(!m, "a function that always returns is accepted"); reach("returns") } }
    for l in &un { check(w.dead.contains(l) | w.maybe.contains(l), "only unreachable statements are reported as unreachable") }
    for l in &w.dead { check(un.contains(l), "a statement after a return, break or continue is reported as unreachable") }
    check(out == w.bad, "exactly the breaks and continues outside of loops are rejected");
    for d in &ds { check(!is_error(d) | (d.code == DiagnosticCode::MissingReturn) | (d.code == DiagnosticCode::BreakOutsideLoop) | (d.code == DiagnosticCode::ContinueOutsideLoop), "nothing else is rejected") }
}
