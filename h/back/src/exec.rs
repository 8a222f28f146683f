//! E01: compiled programs compute what their source says. The reference is an interpreter of the syntax tree
//! that shares nothing with the compiler behind the parser or with the VM.
pub use crate::vm::*;
use cairo_m_common::program::AbiType;
use cairo_m_compiler::{compile_cairo, CompilerOptions};
use cairo_m_compiler_mir::pipeline::OptimizationLevel;
pub use cairo_m_compiler_parser::parser::*;
use cairo_m_compiler_parser::{parse_file, ParserDatabaseImpl, SourceFile};
use cairo_m_runner::vm::VM;
use cairo_m_runner::RunnerOptions;
pub use cairo_m_common::Program;
use std::{cell::RefCell, rc::Rc};

#[derive(Clone, Debug)]
pub enum V { F(u32), U(u32), B(bool), T(Vec<V>), S(Vec<(String, V)>), A(Rc<RefCell<Vec<V>>>) }
use V::*;
/// the program cannot go on: a failed assertion, a division by zero, a cast that does not fit
pub struct Fault;
type R<T> = Result<T, Fault>;
enum Flow { Next, Break, Continue, Ret(V) }
pub struct Ast { pub items: Vec<TopLevelItem> }
type TE = TypeExpr;
pub fn ast(t: &str) -> Ast { let db = ParserDatabaseImpl::default(); let f = SourceFile::new(&db, t.to_string(), "t.cm".to_string()); Ast { items: parse_file(&db, f).module.items } }
impl Ast {
    pub fn func(&self, n: &str) -> &FunctionDef { self.items.iter().find_map(|i| match i { TopLevelItem::Function(f) if f.value().name.value() == n => Some(f.value()), _ => None }).expect("no such function") }
    pub fn structure(&self, n: &str) -> &StructDef { self.items.iter().find_map(|i| match i { TopLevelItem::Struct(s) if s.value().name.value() == n => Some(s.value()), _ => None }).expect("no such struct") }
    fn konst(&self, n: &str) -> &ConstDef { self.items.iter().find_map(|i| match i { TopLevelItem::Const(c) if c.value().name.value() == n => Some(c.value()), _ => None }).unwrap_or_else(|| panic!("no such name {n}")) }
    pub fn zero(&self, t: &TE) -> V { match t {
        TE::Named(n) => match n.value() { NamedType::Felt => F(0), NamedType::U32 => U(0), NamedType::Bool => B(false), NamedType::Custom(c) => S(self.structure(c).fields.iter().map(|(n, t)| (n.value().clone(), self.zero(t.value()))).collect()) },
        TE::Tuple(v) => T(v.iter().map(|t| self.zero(t.value())).collect()), _ => panic!("no zero of this type"),
    } }
    /// any value of the type
    pub fn any(&self, t: &TE, n: &str) -> V { match t {
        TE::Named(k) => match k.value() { NamedType::Felt => F(felt(n)), NamedType::U32 => U(u32(n)), NamedType::Bool => B(bool(n)), NamedType::Custom(c) => S(self.structure(c).fields.iter().map(|(f, t)| (f.value().clone(), self.any(t.value(), &format!("{n}.{}", f.value())))).collect()) },
        TE::Tuple(v) => T(v.iter().enumerate().map(|(i, t)| self.any(t.value(), &format!("{n}.{i}"))).collect()),
        TE::FixedArray { element_type, size } => A(Rc::new(RefCell::new((0..*size.value()).map(|i| self.any(element_type.value(), &format!("{n}[{i}]"))).collect()))),
        TE::Pointer(_) => panic!("pointer arguments are not made"),
    } }
}
pub fn sub(a: u32, b: u32) -> u32 { (M31(a) - M31(b)).0 }
struct Interp<'a> { ast: &'a Ast, fuel: u32 }
type Env = Vec<(String, V)>;
fn lit(e: &Expression) -> bool { match e { Expression::Literal(_, None) => true, Expression::UnaryOp { op: UnaryOp::Neg, expr } => lit(expr.value()), Expression::Parenthesized(x) => lit(x.value()), Expression::BinaryOp { op, left, right } => !matches!(op, BinaryOp::And | BinaryOp::Or | BinaryOp::Eq | BinaryOp::Neq | BinaryOp::Less | BinaryOp::LessEqual | BinaryOp::Greater | BinaryOp::GreaterEqual) && lit(left.value()) && lit(right.value()), _ => false } }
fn named(t: NamedType) -> TE { TE::Named(Spanned::new(t, (0..0).into())) }
fn ty_of(v: &V) -> Option<TE> { match v { U(_) => Some(named(NamedType::U32)), F(_) => Some(named(NamedType::Felt)), _ => None } }
impl<'a> Interp<'a> {
    fn tick(&mut self) { if self.fuel == 0 { assume(false); } self.fuel -= 1; }
    fn call(&mut self, n: &str, args: Vec<V>) -> R<V> {
        self.tick(); let a = self.ast; let f = a.func(n); let mut env: Env = f.params.iter().map(|p| p.name.value().clone()).zip(args).collect();
        match self.block(&f.body, &mut env, f.return_type.value())? { Flow::Ret(v) => Ok(v), _ => Ok(T(vec![])) }
    }
    fn block(&mut self, b: &[Spanned<Statement>], env: &mut Env, ret: &TE) -> R<Flow> {
        let n = env.len();
        for s in b { match self.stmt(s.value(), env, ret)? { Flow::Next => {} f => { env.truncate(n); return Ok(f) } } }
        env.truncate(n); Ok(Flow::Next)
    }
    fn stmt(&mut self, s: &Statement, env: &mut Env, ret: &TE) -> R<Flow> {
        match s {
            Statement::Let { pattern, statement_type, value } => { let v = self.eval(value.value(), env, statement_type.as_ref().map(|t| t.value()))?; bind(pattern, v, env); }
            Statement::Const(c) => { let v = self.eval(c.value.value(), env, c.ty.as_ref().map(|t| t.value()))?; env.push((c.name.value().clone(), v)); }
            Statement::Assignment { lhs, rhs } => {
                let old = if lit(rhs.value()) | matches!(rhs.value(), Expression::Tuple(_) | Expression::ArrayLiteral(_)) { ty_deep(&self.eval(lhs.value(), env, None)?) } else { None };
                let v = self.eval(rhs.value(), env, old.as_ref())?; self.place(lhs.value(), env, &mut |p| *p = v.clone())?;
            }
            Statement::Return { value } => return Ok(Flow::Ret(match value { Some(v) => self.eval(v.value(), env, Some(ret))?, None => T(vec![]) })),
            Statement::If { condition, then_block, else_block } => { if self.cond(condition.value(), env)? { return self.stmt(then_block.value(), env, ret) } else if let Some(e) = else_block { return self.stmt(e.value(), env, ret) } }
            Statement::Expression(e) => { self.eval(e.value(), env, None)?; }
            Statement::Block(b) => return self.block(b, env, ret),
            Statement::Loop { body } => loop { self.tick(); match self.stmt(body.value(), env, ret)? { Flow::Break => break, f @ Flow::Ret(_) => return Ok(f), _ => {} } },
            Statement::While { condition, body } => while self.cond(condition.value(), env)? { self.tick(); match self.stmt(body.value(), env, ret)? { Flow::Break => break, f @ Flow::Ret(_) => return Ok(f), _ => {} } },
            Statement::For { init, condition, step, body } => {
                let n = env.len(); self.stmt(init.value(), env, ret)?;
                while self.cond(condition.value(), env)? { self.tick(); match self.stmt(body.value(), env, ret)? { Flow::Break => break, f @ Flow::Ret(_) => { env.truncate(n); return Ok(f) } _ => {} } self.stmt(step.value(), env, ret)?; }
                env.truncate(n);
            }
            Statement::Break => return Ok(Flow::Break), Statement::Continue => return Ok(Flow::Continue),
        }
        Ok(Flow::Next)
    }
    fn cond(&mut self, e: &Expression, env: &mut Env) -> R<bool> { match self.eval(e, env, None)? { B(b) => Ok(b), _ => panic!("a condition that is not a bool") } }
    fn place(&mut self, e: &Expression, env: &mut Env, f: &mut dyn FnMut(&mut V)) -> R<()> {
        match e {
            Expression::Identifier(n) => { f(&mut env.iter_mut().rev().find(|(k, _)| k == n.value()).expect("no such variable").1); Ok(()) }
            Expression::Parenthesized(x) => self.place(x.value(), env, f),
            Expression::MemberAccess { object, field } => self.place(object.value(), env, &mut |o| match o { S(v) => f(&mut v.iter_mut().find(|(k, _)| k == field.value()).unwrap().1), _ => panic!("not a struct") }),
            Expression::TupleIndex { tuple, index } => self.place(tuple.value(), env, &mut |o| match o { T(v) => f(&mut v[*index]), _ => panic!("not a tuple") }),
            Expression::IndexAccess { array, index } => { let A(a) = self.eval(array.value(), env, None)? else { panic!("not an array") }; let i = self.index(index.value(), env, a.borrow().len())?; f(&mut a.borrow_mut()[i]); Ok(()) }
            _ => panic!("not a place"),
        }
    }
    fn index(&mut self, e: &Expression, env: &mut Env, n: usize) -> R<usize> { let F(i) = self.eval(e, env, Some(&named(NamedType::Felt)))? else { panic!("an index that is not a felt") }; assume((i as usize) < n); Ok(concretize(i as u64) as usize) }
    fn eval(&mut self, e: &Expression, env: &mut Env, want: Option<&TE>) -> R<V> {
        let is = |t: NamedType| matches!(want, Some(TE::Named(n)) if *n.value() == t);
        Ok(match e {
            Expression::Literal(n, s) => if (s.as_deref() == Some("u32")) | (s.is_none() && is(NamedType::U32)) { U(*n as u32) } else { F((*n % P as u64) as u32) },
            Expression::BooleanLiteral(b) => B(*b),
            Expression::Identifier(n) => match env.iter().rev().find(|(k, _)| k == n.value()) { Some((_, v)) => v.clone(), None => { let a = self.ast; let c = a.konst(n.value()); self.eval(c.value.value(), &mut vec![], c.ty.as_ref().map(|t| t.value()))? } },
            Expression::Parenthesized(x) => self.eval(x.value(), env, want)?,
            Expression::UnaryOp { op: UnaryOp::Not, expr } => match self.eval(expr.value(), env, None)? { B(b) => B(!b), _ => panic!("! of no bool") },
            Expression::UnaryOp { op: UnaryOp::Neg, expr } => match self.eval(expr.value(), env, want)? { F(x) => F(sub(0, x)), U(x) => U(0u32.wrapping_sub(x)), _ => panic!("- of no number") },
            Expression::BinaryOp { op, left, right } => {
                use BinaryOp::*;
                let cmp = matches!(op, Eq | Neq | Less | Greater | LessEqual | GreaterEqual); let want = if cmp { None } else { want };
                let (a, b) = if lit(left.value()) { let b = self.eval(right.value(), env, want)?; (self.eval(left.value(), env, ty_of(&b).as_ref())?, b) } else { let a = self.eval(left.value(), env, want)?; let b = self.eval(right.value(), env, ty_of(&a).as_ref())?; (a, b) };
                match (op, a, b) {
                    (And, B(a), B(b)) => B(a & b), (Or, B(a), B(b)) => B(a | b), (Eq, B(a), B(b)) => B(a == b), (Neq, B(a), B(b)) => B(a != b),
                    (Add, F(a), F(b)) => F(add(a, b)), (Sub, F(a), F(b)) => F(sub(a, b)), (Mul, F(a), F(b)) => F((M31(a) * M31(b)).0), (Div, F(a), F(b)) => { assume(b != 0); F((M31(a) / M31(b)).0) }
                    (Add, U(a), U(b)) => U(a.wrapping_add(b)), (Sub, U(a), U(b)) => U(a.wrapping_sub(b)), (Mul, U(a), U(b)) => U(a.wrapping_mul(b)),
                    (Div, U(a), U(b)) => { if b == 0 { return Err(Fault) } U(a / b) } (Mod, U(a), U(b)) => { if b == 0 { return Err(Fault) } U(a % b) }
                    (BitwiseAnd, U(a), U(b)) => U(a & b), (BitwiseOr, U(a), U(b)) => U(a | b), (BitwiseXor, U(a), U(b)) => U(a ^ b),
                    (Eq, F(a), F(b)) | (Eq, U(a), U(b)) => B(a == b), (Neq, F(a), F(b)) | (Neq, U(a), U(b)) => B(a != b),
                    (Less, U(a), U(b)) => B(a < b), (Greater, U(a), U(b)) => B(a > b), (LessEqual, U(a), U(b)) => B(a <= b), (GreaterEqual, U(a), U(b)) => B(a >= b),
                    (op, a, b) => panic!("{op} of {a:?} and {b:?}"),
                }
            }
            Expression::FunctionCall { callee, args } => {
                let Expression::Identifier(n) = callee.value() else { panic!("callee") };
                if n.value() == "assert" { return if self.cond(args[0].value(), env)? { Ok(T(vec![])) } else { Err(Fault) } }
                let a = self.ast; let f = a.func(n.value()); let mut v = vec![]; for (x, p) in args.iter().zip(&f.params) { v.push(self.eval(x.value(), env, Some(p.type_expr.value()))?); } self.call(n.value(), v)?
            }
            Expression::MemberAccess { object, field } => match self.eval(object.value(), env, None)? { S(v) => v.into_iter().find(|(k, _)| k == field.value()).unwrap().1, _ => panic!("not a struct") },
            Expression::TupleIndex { tuple, index } => match self.eval(tuple.value(), env, None)? { T(v) => v[*index].clone(), _ => panic!("not a tuple") },
            Expression::IndexAccess { array, index } => { let A(a) = self.eval(array.value(), env, None)? else { panic!("not an array") }; let n = a.borrow().len(); let i = self.index(index.value(), env, n)?; let v = a.borrow()[i].clone(); v }
            Expression::StructLiteral { name, fields } => { let a = self.ast; let s = a.structure(name.value()); let mut vals = vec![]; for (k, x) in fields { let t = s.fields.iter().find(|(f, _)| f.value() == k.value()).unwrap().1.value(); vals.push((k.value().clone(), self.eval(x.value(), env, Some(t))?)); } S(s.fields.iter().map(|(f, _)| vals.iter().find(|(k, _)| k == f.value()).unwrap().clone()).collect()) }
            Expression::Tuple(v) => { let mut o = vec![]; for (i, x) in v.iter().enumerate() { let t = match want { Some(TE::Tuple(t)) => t.get(i).map(|t| t.value()), _ => None }; o.push(self.eval(x.value(), env, t)?); } T(o) }
            Expression::ArrayLiteral(v) => { let t = el(want); let mut o = vec![]; for x in v { o.push(self.eval(x.value(), env, t)?); } A(Rc::new(RefCell::new(o))) }
            Expression::ArrayRepeat { element, count } => { let v = self.eval(element.value(), env, el(want))?; A(Rc::new(RefCell::new(vec![v; *count.value() as usize]))) }
            Expression::New { elem_type, count } => { let F(n) = self.eval(count.value(), env, Some(&named(NamedType::Felt)))? else { panic!("count") }; assume(n <= 3); let n = concretize(n as u64) as usize; let z = self.ast.zero(elem_type.value()); A(Rc::new(RefCell::new(vec![z; n]))) }
            Expression::Cast { expr, target_type } => match (self.eval(expr.value(), env, None)?, target_type.value()) { (U(x), TE::Named(n)) if *n.value() == NamedType::Felt => { if x >= P { return Err(Fault) } F((M31(x & 0xffff) + M31(x >> 16) * M31(65536)).0) } (v, _) => v },
        })
    }
}
fn el(t: Option<&TE>) -> Option<&TE> { match t { Some(TE::FixedArray { element_type, .. }) => Some(element_type.value()), _ => None } }
fn ty_deep(v: &V) -> Option<TE> { match v { T(v) => Some(TE::Tuple(v.iter().map(|x| Spanned::new(ty_deep(x).unwrap_or(named(NamedType::Bool)), (0..0).into())).collect())), A(a) => a.borrow().first().and_then(ty_deep).map(|t| TE::FixedArray { element_type: Box::new(Spanned::new(t, (0..0).into())), size: Spanned::new(0, (0..0).into()) }), _ => ty_of(v) } }
fn bind(p: &Pattern, v: V, env: &mut Env) { match (p, v) { (Pattern::Identifier(n), v) => env.push((n.value().clone(), v)), (Pattern::Tuple(ps), T(vs)) => for (p, v) in ps.iter().zip(vs) { bind(p, v, env) }, _ => panic!("pattern") } }

pub fn interpret(a: &Ast, f: &str, args: &[V], fuel: u32) -> R<V> { Interp { ast: a, fuel }.call(f, args.to_vec()) }
pub fn compile(t: &str, opt: bool) -> Program {
    let o = CompilerOptions { verbose: false, optimization_level: if opt { OptimizationLevel::Standard } else { OptimizationLevel::None } };
    match compile_cairo(t.to_string(), "t.cm".to_string(), o) { Ok(o) => (*o.program).clone(), Err(e) => { note(&format!("{e:?}")); check(false, "a well-typed program compiles"); unreachable!() } }
}
/// the words a value is passed as; arrays go to memory at `heap` and are passed as their address
fn put(v: &V, vm: &mut VM, heap: &mut u32, out: &mut Vec<M31>) { match v {
    F(x) => out.push(M31(*x)), B(b) => out.push(M31(*b as u32)), U(x) => { out.push(M31(x & 0xffff)); out.push(M31(x >> 16)) }
    T(v) => for x in v { put(x, vm, heap, out) }, S(v) => for (_, x) in v { put(x, vm, heap, out) },
    A(a) => { let mut o = vec![]; for x in a.borrow().iter() { put(x, vm, heap, &mut o) } let at = *heap; *heap += o.len() as u32; for (i, w) in o.iter().enumerate() { vm.memory.insert(M31(at + i as u32), q(w.0)).unwrap(); } out.push(M31(at)); }
} }
fn size(v: &V) -> u32 { match v { F(_) | B(_) => 1, U(_) => 2, T(v) => v.iter().map(size).sum(), S(v) => v.iter().map(|x| size(&x.1)).sum(), A(_) => 1 } }
fn cells(v: &V) -> u32 { match v { T(v) => v.iter().map(cells).sum(), S(v) => v.iter().map(|x| cells(&x.1)).sum(), A(a) => a.borrow().iter().map(|x| size(x) + cells(x)).sum(), _ => 0 } }
/// the value at an address is the one expected
fn same(v: &V, vm: &VM, at: &mut u32) -> bool {
    let mut word = || { let w = vm.memory.get_data_no_trace(M31(*at)).map(|m| m.0); *at += 1; w };
    match v { F(x) => word() == Ok(*x), B(b) => word() == Ok(*b as u32), U(x) => { let l = word(); let h = word(); match (l, h) { (Ok(l), Ok(h)) => (l == (x & 0xffff)) & (h == (x >> 16)), _ => false } }
        T(v) => { let mut r = true; for x in v { r &= same(x, vm, at) } r } S(v) => { let mut r = true; for (_, x) in v { r &= same(x, vm, at) } r }
        A(a) => match word() { Ok(p) => { let mut p = concretize(p as u64) as u32; let mut r = true; for x in a.borrow().iter() { r &= same(x, vm, &mut p) } r } _ => false } }
}
pub fn slots(t: &AbiType) -> usize { AbiType::call_slot_size(t) }
/// run a compiled function on any arguments and compare with the interpreter
pub fn compare(a: &Ast, p: &Program, f: &str, fuel: u32) {
    note(&format!("fn {f}")); let d = a.func(f);
    let args: Vec<V> = d.params.iter().map(|q| a.any(q.type_expr.value(), q.name.value())).collect();
    let given: Vec<V> = args.iter().map(deep).collect();
    let want = interpret(a, f, &args, fuel);
    let e = p.get_entrypoint(f); check(e.is_some(), "every function is an entry point"); let e = e.unwrap();
    let mut vm = VM::try_from(p).expect("loads"); let base = vm.state.fp.0; let mut heap = base; let mut words = vec![]; for v in &given { put(v, &mut vm, &mut heap, &mut words); }
    check(e.params.iter().map(|s| slots(&s.ty)).sum::<usize>() == words.len(), "the entry point lists the parameters");
    let rets: usize = e.returns.iter().map(|s| slots(&s.ty)).sum(); let frame = given.iter().map(cells).sum::<u32>() + words.len() as u32 + rets as u32 + 2;
    fork_loads(true); let r = vm.run_from_entrypoint(e.pc as u32, frame, &words, rets, &RunnerOptions { max_steps: 4000 }); fork_loads(false);
    match want {
        Err(Fault) => { check(r.is_err(), "what cannot go on stops with an error"); reach("fault"); }
        Ok(v) => {
            if let Err(e) = &r { if !is_symbolic() { note(&format!("{e}")); } } check(r.is_ok(), "the program runs to its end"); check((vm.state.pc == vm.final_pc) & (vm.state.fp.0 == base + frame), "control returns to the caller");
            check(size(&v) as usize == rets, "the entry point lists the returned values"); let mut at = base + frame - 2 - rets as u32; if !is_symbolic() { note(&format!("{v:?} at {at}")); }
            check(same(&v, &vm, &mut at), "a function returns what its source says");
            let mut at = base; for v in &args { if let A(x) = v { if cells(v) == x.borrow().iter().map(size).sum::<u32>() { for y in x.borrow().iter() { check(same(y, &vm, &mut at), "an array argument ends up as the source says"); } } } }
            reach("end");
        }
    }
}
fn deep(v: &V) -> V { match v { T(v) => T(v.iter().map(deep).collect()), S(v) => S(v.iter().map(|(k, v)| (k.clone(), deep(v))).collect()), A(a) => A(Rc::new(RefCell::new(a.borrow().iter().map(deep).collect()))), v => v.clone() } }
/// every function of a source, compiled both ways
pub fn corpus(t: &str, fuel: u32) {
    let opt = choose("optimized", 2) == 1; let a = ast(t); let p = compile(t, opt);
    let names: Vec<String> = a.items.iter().filter_map(|i| match i { TopLevelItem::Function(f) => Some(f.value().name.value().clone()), _ => None }).filter(|n| !n.starts_with('_')).collect();
    let f = &names[choose("function", names.len())]; compare(&a, &p, f, fuel);
}
pub fn h_basic() { corpus(include_str!("cm/basic.cm"), 12) }
