//! An independent recursive-descent parser for the documented grammar. `Legacy` settings reproduce
//! the recorded findings (DESIGN.md), so that everything else is still compared exactly.
use crate::util::*;
use cairo_m_compiler_parser::lexer::TokenType as T;
use chumsky::span::SimpleSpan;
use logos::Logos;

pub fn sp<A>(a: A) -> Spanned<A> { Spanned::new(a, SimpleSpan::from(0..0)) }
/// KF1: `&&` and `||` share a tier. KF2: a leading `(..)` is taken for the whole condition of if/while.
/// KF3: `x {}` after if/while is taken for a struct literal.
#[derive(Clone, Copy)]
pub struct Mode { pub tier: bool, pub paren: bool, pub lit: bool }
pub const DOC: Mode = Mode { tier: false, paren: false, lit: false };
pub const LEGACY: Mode = Mode { tier: true, paren: true, lit: true };

pub struct P<'a> { pub t: Vec<T<'a>>, pub i: usize, pub m: Mode, nolit: bool }
type R<A> = Option<A>;
pub fn lex(s: &str) -> Option<Vec<T>> { let mut v = vec![]; for (t, _) in T::lexer(s).spanned() { v.push(t.ok()?); } Some(v) }
pub fn program<'a>(t: Vec<T<'a>>, m: Mode) -> R<Vec<TopLevelItem>> { let mut p = P { t, i: 0, m, nolit: false }; let mut v = vec![]; while p.i < p.t.len() { v.push(p.item()?); } Some(v) }

impl<'a> P<'a> {
    fn peek(&self) -> Option<T<'a>> { self.t.get(self.i).copied() }
    fn is(&mut self, k: T<'a>) -> bool { if self.peek() == Some(k) { self.i += 1; true } else { false } }
    fn want(&mut self, k: T<'a>) -> R<()> { if self.is(k) { Some(()) } else { None } }
    fn id(&mut self) -> R<Spanned<String>> { match self.peek() { Some(T::Identifier(s)) => { self.i += 1; Some(sp(s.to_string())) } _ => None } }
    fn num(&mut self) -> R<(u64, Option<&'a str>)> { match self.peek() { Some(T::LiteralNumber(n)) => { self.i += 1; Some((n.value, n.suffix)) } _ => None } }
    /// comma separated until `end` (consumed); a trailing comma is fine
    fn list<A>(&mut self, end: T<'a>, trailing: bool, mut f: impl FnMut(&mut Self) -> R<A>) -> R<(Vec<A>, bool)> {
        let mut v = vec![]; let mut tc = false;
        if self.is(end) { return Some((v, false)); }
        loop { v.push(f(self)?); tc = false; if self.is(end) { break } self.want(T::Comma)?; tc = true; if self.peek() == Some(end) { if !trailing { return None } self.i += 1; break } }
        Some((v, tc))
    }
    fn named(&mut self) -> R<Spanned<TypeExpr>> { let n = self.id()?; let n = n.value().clone(); Some(sp(TypeExpr::Named(sp(match n.as_str() { "felt" => NamedType::Felt, "bool" => NamedType::Bool, "u32" => NamedType::U32, _ => NamedType::Custom(n) })))) }
    fn ty(&mut self, arrays: bool) -> R<Spanned<TypeExpr>> {
        let mut t = if self.is(T::LParen) {
            let (mut v, c) = self.list(T::RParen, true, |p| p.ty(arrays))?;
            if v.len() == 1 && !c { v.pop().unwrap() } else { sp(TypeExpr::Tuple(v)) }
        } else if arrays && self.is(T::LBrack) {
            let e = self.ty(true)?; self.want(T::Semicolon)?; let n = self.expr_free()?; self.want(T::RBrack)?;
            match n.value() { Expression::Literal(n, None) => sp(TypeExpr::FixedArray { element_type: Box::new(e), size: sp(*n) }), _ => return None }
        } else { self.named()? };
        while self.is(T::Mul) { t = sp(TypeExpr::Pointer(Box::new(t))); }
        Some(t)
    }
    pub fn expr_free(&mut self) -> R<Spanned<Expression>> { let o = std::mem::replace(&mut self.nolit, false); let r = self.expr(0); self.nolit = o; r }
    fn binop(t: T, tier: bool) -> Option<(u8, BinaryOp)> { use BinaryOp::*; Some(match t {
        T::OrOr => (if tier { 1 } else { 0 }, Or), T::AndAnd => (1, And), T::BitwiseAnd => (2, BitwiseAnd), T::BitwiseOr => (2, BitwiseOr), T::BitwiseXor => (2, BitwiseXor),
        T::EqEq => (3, Eq), T::Neq => (3, Neq), T::Less => (3, Less), T::Greater => (3, Greater), T::LessEqual => (3, LessEqual), T::GreaterEqual => (3, GreaterEqual),
        T::Plus => (4, Add), T::Minus => (4, Sub), T::Mul => (5, Mul), T::Div => (5, Div), T::Mod => (5, Mod), _ => return None }) }
    /// precedence climbing, all left-associative
    fn expr(&mut self, min: u8) -> R<Spanned<Expression>> {
        let mut l = self.cast()?;
        while let Some((p, op)) = self.peek().and_then(|t| Self::binop(t, self.m.tier)) {
            if p < min { break }
            self.i += 1;
            let r = self.expr(p + 1)?;
            l = sp(Expression::BinaryOp { op, left: Box::new(l), right: Box::new(r) });
        }
        Some(l)
    }
    fn cast(&mut self) -> R<Spanned<Expression>> {
        let mut e = self.unary()?;
        while self.is(T::As) { let t = self.named()?; e = sp(Expression::Cast { expr: Box::new(e), target_type: t }); }
        Some(e)
    }
    fn unary(&mut self) -> R<Spanned<Expression>> {
        for (t, op) in [(T::Not, UnaryOp::Not), (T::Minus, UnaryOp::Neg)] { if self.is(t) { let e = self.unary()?; return Some(sp(Expression::UnaryOp { op, expr: Box::new(e) })); } }
        let mut e = self.atom()?;
        loop {
            if self.is(T::LParen) { let (args, _) = self.list(T::RParen, true, |p| p.expr_free())?; e = sp(Expression::FunctionCall { callee: Box::new(e), args }); }
            else if self.is(T::Dot) {
                if let Some((n, s)) = self.num() { if s.is_some() { return None } e = sp(Expression::TupleIndex { tuple: Box::new(e), index: n as usize }); }
                else { let field = self.id()?; e = sp(Expression::MemberAccess { object: Box::new(e), field }); }
            }
            else if self.is(T::LBrack) { let index = self.expr_free()?; self.want(T::RBrack)?; e = sp(Expression::IndexAccess { array: Box::new(e), index: Box::new(index) }); }
            else { return Some(e) }
        }
    }
    fn atom(&mut self) -> R<Spanned<Expression>> {
        use Expression::*;
        if let Some((n, s)) = self.num() { return match s { None | Some("felt") | Some("u32") => Some(sp(Literal(n, s.map(|x| x.to_string())))), _ => None }; }
        if self.is(T::True) { return Some(sp(BooleanLiteral(true))) }
        if self.is(T::False) { return Some(sp(BooleanLiteral(false))) }
        if self.is(T::New) { let t = self.ty(false)?; self.want(T::LBrack)?; let c = self.expr_free()?; self.want(T::RBrack)?; return Some(sp(New { elem_type: t, count: Box::new(c) })); }
        if let Some(name) = self.id() {
            let j = self.i;
            if !self.nolit && self.is(T::LBrace) {
                if let Some((fields, _)) = self.list(T::RBrace, true, |p| { let n = p.id()?; p.want(T::Colon)?; let e = p.expr_free()?; Some((n, e)) }) { return Some(sp(StructLiteral { name, fields })); }
                self.i = j;
            }
            return Some(sp(Identifier(name)));
        }
        if self.is(T::LBrack) {
            let j = self.i;
            if let Some(e) = self.expr_free() { if self.is(T::Semicolon) { if let Some((n, s)) = self.num() { if s.is_none() && self.is(T::RBrack) { return Some(sp(ArrayRepeat { element: Box::new(e), count: sp(n) })); } } return None; } }
            self.i = j;
            return Some(sp(ArrayLiteral(self.list(T::RBrack, true, |p| p.expr_free())?.0)));
        }
        if self.is(T::LParen) {
            let (mut v, c) = self.list(T::RParen, true, |p| p.expr_free())?;
            return Some(sp(if v.len() == 1 && !c { Parenthesized(Box::new(v.pop().unwrap())) } else { Tuple(v) }));
        }
        None
    }
    fn cond(&mut self) -> R<Spanned<Expression>> {
        if self.m.paren {
            let j = self.i;
            if self.is(T::LParen) { if let Some(e) = self.expr_free() { if self.is(T::RParen) { return Some(e) } } }
            self.i = j;
        }
        let o = std::mem::replace(&mut self.nolit, !self.m.lit);
        let e = self.expr(0); self.nolit = o;
        let e = e?;
        Some(match e.value() { Expression::Parenthesized(x) => (**x).clone(), _ => e })
    }
    fn pat(&mut self) -> R<Pattern> { if self.is(T::LParen) { let (v, _) = self.list(T::RParen, false, |p| p.pat())?; if v.len() < 2 { return None } Some(Pattern::Tuple(v)) } else { Some(Pattern::Identifier(self.id()?)) } }
    fn konst(&mut self) -> R<ConstDef> { let name = self.id()?; let ty = if self.is(T::Colon) { Some(self.ty(true)?) } else { None }; self.want(T::Eq)?; let value = self.expr_free()?; self.want(T::Semicolon)?; Some(ConstDef { name, ty, value }) }
    fn let_(&mut self) -> R<Statement> { let pattern = self.pat()?; let statement_type = if self.is(T::Colon) { Some(self.ty(true)?) } else { None }; self.want(T::Eq)?; let value = self.expr_free()?; self.want(T::Semicolon)?; Some(Statement::Let { pattern, statement_type, value }) }
    fn assign(&mut self) -> R<Statement> { let lhs = self.expr_free()?; Some(if self.is(T::Eq) { Statement::Assignment { lhs, rhs: self.expr_free()? } } else { Statement::Expression(lhs) }) }
    fn bstmt(&mut self) -> R<Box<Spanned<Statement>>> { Some(Box::new(sp(self.stmt()?))) }
    pub fn stmt(&mut self) -> R<Statement> {
        use Statement::*;
        if self.is(T::LBrace) { let mut v = vec![]; while !self.is(T::RBrace) { v.push(sp(self.stmt()?)); } return Some(Block(v)); }
        if self.is(T::If) { let condition = self.cond()?; let then_block = self.bstmt()?; let else_block = if self.is(T::Else) { Some(self.bstmt()?) } else { None }; return Some(If { condition, then_block, else_block }); }
        if self.is(T::Loop) { return Some(Loop { body: self.bstmt()? }) }
        if self.is(T::While) { let condition = self.cond()?; return Some(While { condition, body: self.bstmt()? }); }
        if self.is(T::For) {
            self.want(T::LParen)?;
            let init = if self.is(T::Let) { self.let_()? } else { let s = self.assign()?; self.want(T::Semicolon)?; s };
            let condition = self.expr_free()?; self.want(T::Semicolon)?;
            let step = self.assign()?; self.want(T::RParen)?;
            return Some(For { init: Box::new(sp(init)), condition, step: Box::new(sp(step)), body: self.bstmt()? });
        }
        if self.is(T::Break) { self.want(T::Semicolon)?; return Some(Break) }
        if self.is(T::Continue) { self.want(T::Semicolon)?; return Some(Continue) }
        if self.is(T::Let) { return self.let_() }
        if self.is(T::Const) { return Some(Const(self.konst()?)) }
        if self.is(T::Return) { let value = if self.peek() == Some(T::Semicolon) { None } else { Some(self.expr_free()?) }; self.want(T::Semicolon)?; return Some(Return { value }); }
        let s = self.assign()?; self.want(T::Semicolon)?; Some(s)
    }
    fn item(&mut self) -> R<TopLevelItem> {
        if self.is(T::Function) {
            let name = self.id()?; self.want(T::LParen)?;
            let (params, _) = self.list(T::RParen, true, |p| { let name = p.id()?; p.want(T::Colon)?; Some(Parameter { name, type_expr: p.ty(true)? }) })?;
            let return_type = if self.is(T::Arrow) { self.ty(true)? } else { sp(TypeExpr::Tuple(vec![])) };
            self.want(T::LBrace)?; let mut body = vec![]; while !self.is(T::RBrace) { body.push(sp(self.stmt()?)); }
            return Some(TopLevelItem::Function(sp(FunctionDef { name, params, return_type, body })));
        }
        if self.is(T::Struct) { let name = self.id()?; self.want(T::LBrace)?; let (fields, _) = self.list(T::RBrace, true, |p| { let n = p.id()?; p.want(T::Colon)?; Some((n, p.ty(true)?)) })?; return Some(TopLevelItem::Struct(sp(StructDef { name, fields }))); }
        if self.is(T::Const) { return Some(TopLevelItem::Const(sp(self.konst()?))) }
        if self.is(T::Use) {
            let mut path = vec![self.id()?];
            while self.is(T::ColonColon) {
                if self.is(T::LBrace) { let (v, _) = self.list(T::RBrace, true, |p| p.id())?; self.want(T::Semicolon)?; return Some(TopLevelItem::Use(sp(UseStmt { path, items: UseItems::List(v) }))); }
                path.push(self.id()?);
            }
            self.want(T::Semicolon)?;
            let last = path.pop().unwrap();
            return Some(TopLevelItem::Use(sp(UseStmt { path, items: UseItems::Single(last) })));
        }
        None
    }
}

/// The real parser against the reference; returns whether the text was accepted.
pub fn agree(s: &str) -> bool {
    let o = parse(s);
    let ok = o.diagnostics.is_empty();
    let Some(t) = lex(s) else { check(!ok & o.module.items().is_empty(), "text with an invalid token is reported and yields no tree"); return false };
    let items = o.module.items().to_vec();
    let want = program(t.clone(), DOC);
    let same = match &want { Some(w) => ok && w.same(&items), None => !ok };
    if !same {
        // one of the recorded findings?
        let mut kf = "";
        for (m, n) in [(Mode { tier: true, ..DOC }, "KF1: && and || share a precedence level"), (Mode { paren: true, ..DOC }, "KF2: a condition that starts with a parenthesis is cut there"), (Mode { lit: true, ..DOC }, "KF3: `x {}` after if/while is taken for a struct literal"), (LEGACY, "KF1-3 together")] {
            let l = program(t.clone(), m);
            if kf.is_empty() && match &l { Some(w) => ok && w.same(&items), None => !ok } { kf = n }
        }
        note(s);
        check(!kf.is_empty(), "the parser accepts exactly the documented grammar and builds its tree");
        check(false, kf);
    }
    if !ok {
        check(items.is_empty(), "a rejected text yields no tree");
        for d in &o.diagnostics { check((d.span.start <= d.span.end) & (d.span.end <= s.len()), "a syntax error points inside the text"); }
    }
    ok
}
/// as `agree`, and the positions in the tree are sane
pub fn agree_spans(s: &str) -> bool {
    let ok = agree(s);
    if ok {
        let o = parse(s); let n = s.len();
        spans(o.module.items(), &mut |a, b, p| {
            check((a <= b) & (b <= n), "every node of the tree lies inside the text");
            if let Some((pa, pb)) = p { check((pa <= a) & (b <= pb), "every node lies inside its parent"); }
        });
    }
    ok
}
