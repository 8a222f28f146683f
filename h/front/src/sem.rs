//! Shared by the semantic harnesses: analysing a crate, comparing the lines with errors with the expected ones.
pub use crate::util::*;
pub use cairo_m_compiler_diagnostics::{DiagnosticCode, DiagnosticCollection, DiagnosticSeverity};
pub use cairo_m_compiler_semantic::db::{project_validate_semantics, Crate};
pub use cairo_m_compiler_semantic::{File, SemanticDatabaseImpl};
pub use std::collections::HashMap;
pub use std::path::PathBuf;

pub fn new_crate(db: &SemanticDatabaseImpl, files: &[(&str, &str)]) -> Crate {
    let mut m = HashMap::new();
    for (n, t) in files { m.insert(n.to_string(), File::new(db, t.to_string(), format!("{n}.cm"))); }
    Crate::new(db, m, files[0].0.to_string(), PathBuf::from("."), "k".to_string())
}
pub fn analyse(files: &[(&str, &str)]) -> Vec<Diagnostic> {
    let db = SemanticDatabaseImpl::default();
    let c = new_crate(&db, files);
    project_validate_semantics(&db, c).all().to_vec()
}
pub fn is_error(d: &Diagnostic) -> bool { d.severity == DiagnosticSeverity::Error }
/// the numbers of the lines of `t` (in file `name`) on which an error starts
pub fn error_lines(ds: &[Diagnostic], name: &str, t: &str, want: impl Fn(&Diagnostic) -> bool) -> Vec<usize> {
    let mut v: Vec<usize> = ds.iter().filter(|d| want(d) && d.file_path == format!("{name}.cm")).map(|d| t.as_bytes()[..d.span.start.min(t.len())].iter().filter(|b| **b == b'\n').count()).collect();
    v.sort(); v.dedup(); v
}
/// a program made of lines, of which some have to be reported
#[derive(Default, Clone)]
pub struct Prog { pub text: String, pub bad: Vec<usize>, pub maybe: Vec<usize>, pub others: Vec<(String, String)>, pub n: usize }
impl Prog {
    pub fn new(t: &str) -> Prog { let mut p = Prog::default(); p.add(t, false); p }
    /// lines that are fine, or whose first line has to be reported
    pub fn add(&mut self, t: &str, bad: bool) -> &mut Prog { if bad { self.bad.push(self.n) } self.text.push_str(t); self.text.push('\n'); self.n += 1 + t.bytes().filter(|b| *b == b'\n').count(); self }
    pub fn judge(&self, what: &str) -> Vec<Diagnostic> {
        note(&self.text);
        let mut files = vec![("main", self.text.as_str())]; for (n, t) in &self.others { files.push((n, t)); note(&format!("{n}:\n{t}")) }
        let ds = analyse(&files);
        for d in &ds { if is_error(d) { note(&d.message) } }
        let e = error_lines(&ds, "main", &self.text, is_error);
        for l in &e { check(self.bad.contains(l) | self.maybe.contains(l), &format!("a line without a mistake is not reported ({what})")) }
        for l in &self.bad { check(e.contains(l), &format!("a mistake is reported at its line ({what})")) }
        reach(if self.bad.is_empty() { "accepted" } else { "rejected" }); reach("end");
        ds
    }
}

/// the types of the language as the harness sees them
#[derive(Clone, PartialEq, Debug)]
pub enum T { F, U, B, P, Q, Tup(Vec<T>), Arr(Box<T>, u64), Ptr(Box<T>), Fun, Lit }
pub use T::*;
pub fn arr(t: T, n: u64) -> T { Arr(Box::new(t), n) }
pub fn ptr(t: T) -> T { Ptr(Box::new(t)) }
impl T { pub fn text(&self) -> String { match self { F => "felt".into(), U => "u32".into(), B => "bool".into(), P => "P".into(), Q => "Q".into(),
    Tup(v) => format!("({})", v.iter().map(|t| t.text()).collect::<Vec<_>>().join(", ")), Arr(t, n) => format!("[{}; {n}]", t.text()), Ptr(t) => format!("{}*", t.text()), Fun | Lit => unreachable!() } }
    pub fn num(&self) -> bool { matches!(self, F | U) }
    /// a literal becomes what its place wants, if that is a number
    pub fn fit(&self, want: &T) -> T { match (self, want) {
        (Lit, w) => if w.num() { w.clone() } else { F },
        (Tup(a), Tup(b)) if a.len() == b.len() => Tup(a.iter().zip(b).map(|(x, y)| x.fit(y)).collect()),
        (Tup(a), _) => Tup(a.iter().map(|x| x.fit(&P)).collect()),
        (Arr(a, n), Arr(b, _)) => arr(a.fit(b), *n),
        (Arr(a, n), _) => arr(a.fit(&P), *n),
        (t, _) => t.clone() } }
    pub fn is(&self, want: &T) -> bool { self.fit(want) == *want } }
