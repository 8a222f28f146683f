//! Shared by the harnesses: parsing, and comparison of syntax trees that ignores source positions.
pub use cairo_m_compiler_diagnostics::Diagnostic;
pub use cairo_m_compiler_parser::parser::*;
pub use cairo_m_compiler_parser::{parse_file, ParserDatabaseImpl, SourceFile};
pub use symrt::*;

pub fn parse(t: &str) -> ParseOutput {
    let db = ParserDatabaseImpl::default();
    let f = SourceFile::new(&db, t.to_string(), "t.cm".to_string());
    parse_file(&db, f)
}
/// `n` bytes, each anything `f` allows
pub fn bytes(name: &str, n: usize, f: impl Fn(u8) -> bool) -> Vec<u8> { (0..n).map(|i| { let b = u8(&format!("{name}{i}")); assume(f(b)); b }).collect() }
pub fn ascii(b: u8) -> bool { b < 128 }

/// equality modulo spans
pub trait Same { fn same(&self, o: &Self) -> bool; }
impl<T: Same> Same for Spanned<T> { fn same(&self, o: &Self) -> bool { self.value().same(o.value()) } }
impl<T: Same> Same for Box<T> { fn same(&self, o: &Self) -> bool { (**self).same(&**o) } }
impl<T: Same> Same for Option<T> { fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } } }
impl<T: Same> Same for Vec<T> { fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) } }
impl<A: Same, B: Same> Same for (A, B) { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) } }
impl Same for String { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for u64 { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for NamedType { fn same(&self, o: &Self) -> bool { self == o } }
impl Same for TypeExpr { fn same(&self, o: &Self) -> bool { use TypeExpr::*; match (self, o) {
    (Named(a), Named(b)) => a.same(b), (Pointer(a), Pointer(b)) => a.same(b), (Tuple(a), Tuple(b)) => a.same(b),
    (FixedArray { element_type: a, size: n }, FixedArray { element_type: b, size: m }) => a.same(b) && n.same(m), _ => false } } }
impl Same for Expression { fn same(&self, o: &Self) -> bool { use Expression::*; match (self, o) {
    (Literal(a, s), Literal(b, t)) => a == b && s.same(t),
    (BooleanLiteral(a), BooleanLiteral(b)) => a == b,
    (Identifier(a), Identifier(b)) => a.same(b),
    (UnaryOp { op: p, expr: a }, UnaryOp { op: q, expr: b }) => p == q && a.same(b),
    (BinaryOp { op: p, left: a, right: b }, BinaryOp { op: q, left: c, right: d }) => p == q && a.same(c) && b.same(d),
    (FunctionCall { callee: a, args: b }, FunctionCall { callee: c, args: d }) => a.same(c) && b.same(d),
    (MemberAccess { object: a, field: b }, MemberAccess { object: c, field: d }) => a.same(c) && b.same(d),
    (IndexAccess { array: a, index: b }, IndexAccess { array: c, index: d }) => a.same(c) && b.same(d),
    (StructLiteral { name: a, fields: b }, StructLiteral { name: c, fields: d }) => a.same(c) && b.same(d),
    (Tuple(a), Tuple(b)) => a.same(b),
    (TupleIndex { tuple: a, index: b }, TupleIndex { tuple: c, index: d }) => a.same(c) && b == d,
    (ArrayLiteral(a), ArrayLiteral(b)) => a.same(b),
    (ArrayRepeat { element: a, count: b }, ArrayRepeat { element: c, count: d }) => a.same(c) && b.same(d),
    (Cast { expr: a, target_type: b }, Cast { expr: c, target_type: d }) => a.same(c) && b.same(d),
    (New { elem_type: a, count: b }, New { elem_type: c, count: d }) => a.same(c) && b.same(d),
    (Parenthesized(a), Parenthesized(b)) => a.same(b),
    _ => false } } }
impl Same for Parameter { fn same(&self, o: &Self) -> bool { self.name.same(&o.name) && self.type_expr.same(&o.type_expr) } }
impl Same for Pattern { fn same(&self, o: &Self) -> bool { match (self, o) { (Pattern::Identifier(a), Pattern::Identifier(b)) => a.same(b), (Pattern::Tuple(a), Pattern::Tuple(b)) => a.same(b), _ => false } } }
impl Same for ConstDef { fn same(&self, o: &Self) -> bool { self.name.same(&o.name) && self.ty.same(&o.ty) && self.value.same(&o.value) } }
impl Same for Statement { fn same(&self, o: &Self) -> bool { use Statement::*; match (self, o) {
    (Let { pattern: a, statement_type: b, value: c }, Let { pattern: x, statement_type: y, value: z }) => a.same(x) && b.same(y) && c.same(z),
    (Const(a), Const(b)) => a.same(b),
    (Assignment { lhs: a, rhs: b }, Assignment { lhs: c, rhs: d }) => a.same(c) && b.same(d),
    (Return { value: a }, Return { value: b }) => a.same(b),
    (If { condition: a, then_block: b, else_block: c }, If { condition: x, then_block: y, else_block: z }) => a.same(x) && b.same(y) && c.same(z),
    (Expression(a), Expression(b)) => a.same(b),
    (Block(a), Block(b)) => a.same(b),
    (Loop { body: a }, Loop { body: b }) => a.same(b),
    (While { condition: a, body: b }, While { condition: c, body: d }) => a.same(c) && b.same(d),
    (For { init: a, condition: b, step: c, body: d }, For { init: w, condition: x, step: y, body: z }) => a.same(w) && b.same(x) && c.same(y) && d.same(z),
    (Break, Break) | (Continue, Continue) => true,
    _ => false } } }
impl Same for FunctionDef { fn same(&self, o: &Self) -> bool { self.name.same(&o.name) && self.params.same(&o.params) && self.return_type.same(&o.return_type) && self.body.same(&o.body) } }
impl Same for StructDef { fn same(&self, o: &Self) -> bool { self.name.same(&o.name) && self.fields.same(&o.fields) } }
impl Same for UseStmt { fn same(&self, o: &Self) -> bool { self.path.same(&o.path) && match (&self.items, &o.items) { (UseItems::Single(a), UseItems::Single(b)) => a.same(b), (UseItems::List(a), UseItems::List(b)) => a.same(b), _ => false } } }
impl Same for TopLevelItem { fn same(&self, o: &Self) -> bool { use TopLevelItem::*; match (self, o) { (Function(a), Function(b)) => a.same(b), (Struct(a), Struct(b)) => a.same(b), (Const(a), Const(b)) => a.same(b), (Use(a), Use(b)) => a.same(b), _ => false } } }

/// every spanned node of the tree, parent before child
pub fn spans(items: &[TopLevelItem], f: &mut dyn FnMut(usize, usize, Option<(usize, usize)>)) {
    for i in items { match i {
        TopLevelItem::Function(x) => { let p = r(x.span()); f(p.0, p.1, None); id(&x.value().name, p, f); for q in &x.value().params { id(&q.name, p, f); ty(&q.type_expr, p, f); } for s in &x.value().body { stmt(s, p, f); } }
        TopLevelItem::Struct(x) => { let p = r(x.span()); f(p.0, p.1, None); id(&x.value().name, p, f); for (n, t) in &x.value().fields { id(n, p, f); ty(t, p, f); } }
        TopLevelItem::Const(x) => { let p = r(x.span()); f(p.0, p.1, None); id(&x.value().name, p, f); expr(&x.value().value, p, f); }
        TopLevelItem::Use(x) => { let p = r(x.span()); f(p.0, p.1, None); for s in &x.value().path { id(s, p, f); } for s in x.value().items.spans() { f(s.start, s.end, Some(p)); } }
    } }
}
type F<'a> = &'a mut dyn FnMut(usize, usize, Option<(usize, usize)>);
fn r(s: chumsky::span::SimpleSpan<usize>) -> (usize, usize) { (s.start, s.end) }
fn id(x: &Spanned<String>, p: (usize, usize), f: F) { let s = r(x.span()); f(s.0, s.1, Some(p)); }
fn ty(t: &Spanned<TypeExpr>, p: (usize, usize), f: F) { let s = r(t.span()); f(s.0, s.1, Some(p)); match t.value() { TypeExpr::Pointer(x) => ty(x, s, f), TypeExpr::Tuple(v) => for x in v { ty(x, s, f) }, TypeExpr::FixedArray { element_type, .. } => ty(element_type, s, f), _ => {} } }
pub fn expr(e: &Spanned<Expression>, p: (usize, usize), f: F) {
    let s = r(e.span()); f(s.0, s.1, Some(p));
    use Expression::*;
    match e.value() {
        UnaryOp { expr: a, .. } | Parenthesized(a) | TupleIndex { tuple: a, .. } | ArrayRepeat { element: a, .. } => expr(a, s, f),
        BinaryOp { left, right, .. } => { expr(left, s, f); expr(right, s, f) }
        FunctionCall { callee, args } => { expr(callee, s, f); for a in args { expr(a, s, f) } }
        MemberAccess { object, field } => { expr(object, s, f); id(field, s, f) }
        IndexAccess { array, index } => { expr(array, s, f); expr(index, s, f) }
        StructLiteral { name, fields } => { id(name, s, f); for (n, x) in fields { id(n, s, f); expr(x, s, f) } }
        Tuple(v) | ArrayLiteral(v) => for x in v { expr(x, s, f) },
        Cast { expr: a, target_type } => { expr(a, s, f); ty(target_type, s, f) }
        New { elem_type, count } => { ty(elem_type, s, f); expr(count, s, f) }
        _ => {}
    }
}
fn pat(x: &Pattern, p: (usize, usize), f: F) { match x { Pattern::Identifier(i) => id(i, p, f), Pattern::Tuple(v) => for q in v { pat(q, p, f) } } }
fn stmt(x: &Spanned<Statement>, p: (usize, usize), f: F) {
    let s = r(x.span()); f(s.0, s.1, Some(p));
    use Statement::*;
    match x.value() {
        Let { pattern, statement_type, value } => { pat(pattern, s, f); if let Some(t) = statement_type { ty(t, s, f) } expr(value, s, f) }
        Const(c) => { id(&c.name, s, f); expr(&c.value, s, f) }
        Assignment { lhs, rhs } => { expr(lhs, s, f); expr(rhs, s, f) }
        Return { value } => if let Some(v) = value { expr(v, s, f) },
        If { condition, then_block, else_block } => { expr(condition, s, f); stmt(then_block, s, f); if let Some(b) = else_block { stmt(b, s, f) } }
        Expression(e) => expr(e, s, f),
        Block(v) => for q in v { stmt(q, s, f) },
        Loop { body } => stmt(body, s, f),
        While { condition, body } => { expr(condition, s, f); stmt(body, s, f) }
        For { init, condition, step, body } => { stmt(init, s, f); expr(condition, s, f); stmt(step, s, f); stmt(body, s, f) }
        Break | Continue => {}
    }
}
/// the value of the only constant of `items`
pub fn only_const(o: &ParseOutput) -> Option<&Spanned<Expression>> { match o.module.items() { [TopLevelItem::Const(c)] => Some(&c.value().value), _ => None } }
