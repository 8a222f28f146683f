//! LLVM textual IR: lazily parsed functions, eagerly parsed globals.
use std::collections::HashMap;

pub type Ty = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T { Void, Int(u16), Ptr, F32, F64, F16, F128, X80, Arr(u64, Ty), Vec(u32, Ty), Struct(Vec<Ty>, bool), Label, Meta, Token, Func, Opaque }

pub struct Types { pub v: Vec<T>, map: HashMap<T, Ty>, pub size: Vec<u64>, pub align: Vec<u64>, pub offs: Vec<Vec<u64>>, pub named: HashMap<String, Ty> }
impl Types {
    pub fn new() -> Types { Types { v: vec![], map: HashMap::new(), size: vec![], align: vec![], offs: vec![], named: HashMap::new() } }
    pub fn mk(&mut self, t: T) -> Ty {
        if let Some(x) = self.map.get(&t) { return *x; }
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        let (mut size, mut align, mut offs) = (0u64, 1u64, vec![]);
        match &t {
            T::Int(w) => { let b = (*w as u64 + 7) / 8; align = b.next_power_of_two().min(16); size = up(b, align); if *w > 64 && *w < 128 { align = 16; size = 16 } }
            T::Ptr => { size = 8; align = 8 }
            T::F32 => { size = 4; align = 4 } T::F64 => { size = 8; align = 8 } T::F16 => { size = 2; align = 2 } T::F128 | T::X80 => { size = 16; align = 16 }
            T::Arr(n, e) => { align = self.align[*e as usize]; size = self.size[*e as usize] * n }
            T::Vec(n, e) => { let bits = match self.v[*e as usize] { T::Int(w) => w as u64, _ => self.size[*e as usize] * 8 }; size = ((*n as u64 * bits + 7) / 8).next_power_of_two(); align = size }
            T::Struct(f, packed) => {
                for x in f { let a = if *packed { 1 } else { self.align[*x as usize] }; align = align.max(a); size = up(size, a); offs.push(size); size += self.size[*x as usize]; }
                size = up(size, align);
            }
            _ => {}
        }
        let id = self.v.len() as Ty;
        self.v.push(t.clone()); self.size.push(size); self.align.push(align); self.offs.push(offs);
        self.map.insert(t, id);
        id
    }
    pub fn int_w(&self, t: Ty) -> u16 { match &self.v[t as usize] { T::Int(w) => *w, T::Ptr | T::F64 => 64, T::F32 => 32, T::F16 => 16, x => panic!("not scalar {:?}", x) } }
    pub fn is_scalar(&self, t: Ty) -> bool { matches!(self.v[t as usize], T::Int(_) | T::Ptr | T::F32 | T::F64 | T::F16) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum O { R(u32), C(u64), K(u32) }

#[derive(Clone, Debug)]
pub enum Cst { I(u64), B(u128), Agg(Vec<Cst>), Undef }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, BitCast, PtrToInt, IntToPtr, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub struct Gx { pub base: O, pub off: i64, pub idx: Vec<(O, u16, u64)> }
#[derive(Clone, Debug)]
pub struct CallI { pub dst: Option<u32>, pub rty: Ty, pub callee: Callee, pub args: Vec<(O, Ty)>, pub asm: bool, pub next: u32 /* invoke normal edge, or u32::MAX */ }
#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ind(O), Asm(String), Intr(String) }
#[derive(Clone, Debug)]
pub struct Sw { pub w: u16, pub v: O, pub def: u32, pub cases: Vec<(u64, u32)>, pub map: HashMap<u64, u32> }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Bin, w: u16, d: u32, a: O, b: O },
    Icmp { p: Pred, w: u16, d: u32, a: O, b: O },
    Cast { k: Cast, fw: u16, tw: u16, d: u32, a: O },
    Load { d: u32, w: u16, p: O },
    Store { w: u16, v: O, p: O },
    GepC { d: u32, b: O, off: i64 },
    Gep1 { d: u32, b: O, off: i64, i: O, iw: u16, sc: u64 },
    Gep { d: u32, g: Box<Gx> },
    Br(u32),
    CBr { c: O, t: u32, f: u32 },
    Switch(Box<Sw>),
    Call(Box<CallI>),
    Ret(Option<O>),
    Sel { d: u32, w: u16, ptr: bool, c: O, a: O, b: O },
    SelAgg { d: u32, ty: Ty, c: O, a: O, b: O },
    LoadT { d: u32, ty: Ty, p: O },
    StoreT { ty: Ty, v: O, p: O },
    Extract { d: u32, a: O, path: Vec<u32> },
    Insert { d: u32, ty: Ty, a: O, v: O, path: Vec<u32> },
    VBin { op: Bin, n: u32, w: u16, d: u32, a: O, b: O },
    VCmp { p: Pred, n: u32, w: u16, d: u32, a: O, b: O },
    VCast { k: Cast, from: Ty, to: Ty, d: u32, a: O },
    VSel { d: u32, n: u32, w: u16, c: O, a: O, b: O },
    ExtEl { d: u32, a: O, i: O },
    InsEl { d: u32, a: O, v: O, i: O },
    Shuf { d: u32, a: O, b: O, n: u32, mask: Vec<i32> },
    CmpXchg { d: u32, w: u16, p: O, a: O, b: O },
    Rmw { op: Rmw, d: u32, w: u16, p: O, v: O },
    Alloca { d: u32, size: u64, align: u64, n: O },
    Copy { d: u32, a: O },
    FCmp { p: String, w: u16, d: u32, a: O, b: O },
    Unreachable,
    Unsup(String),
}

pub struct Edge { pub to: u32, pub copies: Vec<(u32, O)> }
pub struct Func {
    pub id: u32, pub nregs: u32, pub params: Vec<u32>,
    pub code: Vec<I>, pub bb: Vec<u32>, pub edges: Vec<Edge>, pub consts: Vec<Cst>,
}
pub struct FDecl { pub name: String, pub text: Option<(usize, usize)>, }
pub struct Global { pub name: String, pub ty: Ty, pub init: Option<(usize, usize)>, pub align: u64, pub addr: u64 }

pub struct Module {
    pub src: &'static str,
    pub tys: Types,
    pub funcs: Vec<FDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub alias: HashMap<String, String>,
    pub gend: u64,
}
pub const FBASE: u64 = 0x1000_0000;
pub const GBASE: u64 = 0x1_0000_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok<'a> { W(&'a str), L(&'a str), G(&'a str), S(&'a str), P(u8), M(&'a str), Eof }
pub struct Lx<'a> { s: &'a [u8], pub p: usize, pub t: Tok<'a>, pub nl: bool }
impl<'a> Lx<'a> {
    pub fn new(s: &'a str) -> Lx<'a> { let mut l = Lx { s: s.as_bytes(), p: 0, t: Tok::Eof, nl: false }; l.next(); l }
    fn st(&self, a: usize, b: usize) -> &'a str { unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) } }
    fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }
    pub fn next(&mut self) -> Tok<'a> {
        let old = self.t;
        self.nl = false;
        let s = self.s;
        loop {
            if self.p >= s.len() { self.t = Tok::Eof; return old; }
            match s[self.p] {
                b'\n' => { self.nl = true; self.p += 1 }
                b' ' | b'\t' | b'\r' => self.p += 1,
                b';' => { while self.p < s.len() && s[self.p] != b'\n' { self.p += 1 } }
                _ => break,
            }
        }
        let c = s[self.p];
        let b = self.p;
        self.t = match c {
            b'%' | b'@' => {
                self.p += 1;
                let n = if s[self.p] == b'"' { let q = self.p + 1; self.p = q; while s[self.p] != b'"' { self.p += 1 } self.p += 1; self.st(q, self.p - 1) }
                    else { let q = self.p; while self.p < s.len() && Self::idc(s[self.p]) { self.p += 1 } self.st(q, self.p) };
                if c == b'%' { Tok::L(n) } else { Tok::G(n) }
            }
            b'"' => { self.p += 1; let q = self.p; while s[self.p] != b'"' { self.p += 1 } self.p += 1; Tok::S(self.st(q, self.p - 1)) }
            b'!' | b'#' => { self.p += 1; while self.p < s.len() && Self::idc(s[self.p]) { self.p += 1 } Tok::M(self.st(b, self.p)) }
            _ if Self::idc(c) => { while self.p < s.len() && Self::idc(s[self.p]) { self.p += 1 } Tok::W(self.st(b, self.p)) }
            _ => { self.p += 1; Tok::P(c) }
        };
        old
    }
    pub fn is(&self, w: &str) -> bool { self.t == Tok::W(w) }
    pub fn eat(&mut self, w: &str) -> bool { if self.is(w) { self.next(); true } else { false } }
    pub fn eatp(&mut self, c: u8) -> bool { if self.t == Tok::P(c) { self.next(); true } else { false } }
    pub fn exp(&mut self, c: u8) { if !self.eatp(c) { panic!("IR parse: expected '{}' got {:?} near {:?}", c as char, self.t, self.st(self.p.saturating_sub(200), (self.p + 40).min(self.s.len()))) } }
    pub fn word(&mut self) -> &'a str { match self.next() { Tok::W(w) => w, t => panic!("IR parse: expected word got {:?} near {:?}", t, self.st(self.p.saturating_sub(200), (self.p + 40).min(self.s.len()))) } }
    pub fn skip_parens(&mut self) { self.exp(b'('); let mut d = 1; while d > 0 { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::Eof => panic!("eof"), _ => {} } } }
}

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = Vec::with_capacity(b.len()); let mut i = 0;
    while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap()); i += 3; } } else { o.push(b[i]); i += 1 } }
    o
}

impl Module {
    pub fn parse_ty(&mut self, l: &mut Lx) -> Ty {
        let mut t = match l.next() {
            Tok::W(w) => {
                let t = match w { "void" => T::Void, "ptr" => T::Ptr, "float" => T::F32, "double" => T::F64, "half" => T::F16, "fp128" => T::F128, "x86_fp80" => T::X80, "label" => T::Label, "metadata" => T::Meta, "token" => T::Token, "opaque" => T::Opaque,
                    _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => T::Int(w[1..].parse().unwrap()),
                    _ => panic!("IR parse: type {:?}", w) };
                self.tys.mk(t)
            }
            Tok::L(n) => *self.tys.named.get(n).unwrap_or_else(|| panic!("named type {}", n)),
            Tok::P(b'[') => { let n: u64 = l.word().parse().unwrap(); assert!(l.eat("x")); let e = self.parse_ty(l); l.exp(b']'); self.tys.mk(T::Arr(n, e)) }
            Tok::P(b'<') => {
                if l.eatp(b'{') { let mut f = vec![]; if !l.eatp(b'}') { loop { f.push(self.parse_ty(l)); if l.eatp(b'}') { break; } l.exp(b','); } } l.exp(b'>'); self.tys.mk(T::Struct(f, true)) }
                else { let n: u32 = l.word().parse().unwrap(); assert!(l.eat("x")); let e = self.parse_ty(l); l.exp(b'>'); self.tys.mk(T::Vec(n, e)) }
            }
            Tok::P(b'{') => { let mut f = vec![]; if !l.eatp(b'}') { loop { f.push(self.parse_ty(l)); if l.eatp(b'}') { break; } l.exp(b','); } } self.tys.mk(T::Struct(f, false)) }
            t => panic!("IR parse: type {:?}", t),
        };
        if l.is("addrspace") { l.next(); l.skip_parens(); }
        // function type
        if l.t == Tok::P(b'(') { l.skip_parens(); t = self.tys.mk(T::Func); }
        t
    }

    pub fn load(src: &'static str) -> Module {
        let mut m = Module { src, tys: Types::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), alias: HashMap::new(), gend: GBASE };
        let b = src.as_bytes();
        // named types first (they may refer to each other: iterate until stable)
        let mut named: Vec<(String, &'static str)> = vec![];
        let mut pos = 0;
        let mut glines = vec![];
        while pos < b.len() {
            let e = memchr(b, b'\n', pos);
            let line = &src[pos..e];
            if line.starts_with("define ") {
                let mut q = e;
                // body ends at a line that is exactly "}"
                loop { let q2 = memchr(b, b'\n', q + 1); if &src[q + 1..q2] == "}" { q = q2; break; } q = q2; if q >= b.len() { panic!("unterminated function"); } }
                let name = fname(line);
                m.fidx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FDecl { name, text: Some((pos, q)) });
                pos = q + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = fname(line);
                m.fidx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FDecl { name, text: None });
            } else if line.starts_with('@') { glines.push((pos, e)); }
            else if line.starts_with('%') { if let Some(i) = line.find(" = type ") { named.push((line[1..i].trim_matches('"').to_string(), &line[i + 8..])); } }
            pos = e + 1;
        }
        let mut guard = 0;
        while !named.is_empty() {
            guard += 1; if guard > 50 { panic!("named types"); }
            let mut rest = vec![];
            for (n, t) in named { 
                let ok = { let mut l = Lx::new(t); let mut ok = true; loop { match l.next() { Tok::L(x) => if !m.tys.named.contains_key(x) { ok = false }, Tok::Eof => break, _ => {} } } ok };
                if ok { let mut l = Lx::new(t); let ty = m.parse_ty(&mut l); m.tys.named.insert(n, ty); } else { rest.push((n, t)); }
            }
            named = rest;
        }
        let mut addr = GBASE;
        for (s, e) in glines {
            let line: &'static str = &src[s..e];
            let mut l = Lx::new(line);
            let name = match l.next() { Tok::G(n) => n.to_string(), _ => continue };
            l.exp(b'=');
            let mut is_alias = false; let mut ext = false;
            loop {
                match l.t {
                    Tok::W("global") | Tok::W("constant") => { l.next(); break }
                    Tok::W("alias") | Tok::W("ifunc") => { is_alias = true; l.next(); break }
                    Tok::W("external") | Tok::W("extern_weak") => { ext = true; l.next(); }
                    Tok::P(b'(') => l.skip_parens(),
                    Tok::Eof => panic!("global {}", line),
                    _ => { l.next(); }
                }
            }
            let ty = m.parse_ty(&mut l);
            if is_alias { l.exp(b','); m.parse_ty(&mut l); if let Tok::G(t) = l.t { m.alias.insert(name, t.to_string()); } continue; }
            // position of the current (initialiser) token
            let (mut init, mut align) = (None, m.tys.align[ty as usize].max(1));
            if !ext { let end = line.len(); let st = l.p; let tokstart = tokstart(line, st, &l.t); init = Some((s + tokstart, s + end)); }
            if let Some(i) = line.rfind(", align ") { let t: String = line[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(a) = t.parse() { align = a } }
            let size = m.tys.size[ty as usize].max(if ext { 16 } else { 0 });
            addr = (addr + align.max(1) - 1) / align.max(1) * align.max(1);
            m.gidx.insert(name.clone(), m.globals.len() as u32);
            m.globals.push(Global { name, ty, init, align, addr });
            addr += size.max(1);
        }
        m.gend = addr;
        m
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(g) = self.gidx.get(n) { return self.globals[*g as usize].addr; }
        if let Some(f) = self.fidx.get(n) { return FBASE + *f as u64 * 16; }
        if let Some(a) = self.alias.get(n) { return self.sym_addr(a); }
        panic!("symbol {}", n)
    }
    /// parse a constant of type ty at the current token
    pub fn parse_const(&mut self, l: &mut Lx, ty: Ty) -> Cst {
        let t = self.tys.v[ty as usize].clone();
        match l.next() {
            Tok::W("zeroinitializer") => self.zero(ty),
            Tok::W("null") | Tok::W("false") | Tok::W("none") => Cst::I(0),
            Tok::W("true") => Cst::I(1),
            Tok::W("undef") | Tok::W("poison") => match t { T::Struct(..) | T::Arr(..) | T::Vec(..) => self.zero(ty), T::Int(w) if w > 64 => Cst::B(0), _ => Cst::Undef },
            Tok::G(n) => Cst::I(self.sym_addr(n)),
            Tok::W("c") => { if let Tok::S(s) = l.next() { Cst::Agg(unesc(s).into_iter().map(|b| Cst::I(b as u64)).collect()) } else { panic!() } }
            Tok::P(b'[') => { let mut v = vec![]; if !l.eatp(b']') { loop { let et = self.parse_ty(l); v.push(self.parse_const(l, et)); if l.eatp(b']') { break; } l.exp(b','); } } Cst::Agg(v) }
            Tok::P(b'{') => { let mut v = vec![]; if !l.eatp(b'}') { loop { let et = self.parse_ty(l); v.push(self.parse_const(l, et)); if l.eatp(b'}') { break; } l.exp(b','); } } Cst::Agg(v) }
            Tok::P(b'<') => {
                let st = l.eatp(b'{'); let end = if st { b'}' } else { b'>' };
                let mut v = vec![]; if !l.eatp(end) { loop { let et = self.parse_ty(l); v.push(self.parse_const(l, et)); if l.eatp(end) { break; } l.exp(b','); } }
                if st { l.exp(b'>'); } Cst::Agg(v)
            }
            Tok::W("splat") => { l.exp(b'('); let et = self.parse_ty(l); let c = self.parse_const(l, et); l.exp(b')'); if let T::Vec(n, _) = t { Cst::Agg(vec![c; n as usize]) } else { panic!() } }
            Tok::W("getelementptr") => {
                while matches!(l.t, Tok::W(_)) { let w = l.word(); if w == "inrange" { l.skip_parens() } }
                l.exp(b'(');
                let sty = self.parse_ty(l); l.exp(b',');
                let pt = self.parse_ty(l); let base = self.parse_const(l, pt);
                let mut idx = vec![];
                while l.eatp(b',') { l.eat("inrange"); let it = self.parse_ty(l); let w = self.tys.int_w(it); if let Cst::I(x) = self.parse_const(l, it) { idx.push(crate::expr::sx(x as u128, w) as i64) } else { panic!() } }
                l.exp(b')');
                let b = if let Cst::I(b) = base { b } else { panic!() };
                let mut off = idx[0] * self.tys.size[sty as usize] as i64; let mut cur = sty;
                for i in &idx[1..] { let (o, n) = self.step(cur, *i); off += o; cur = n; }
                Cst::I(b.wrapping_add(off as u64))
            }
            Tok::W(op @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast")) => {
                while matches!(l.t, Tok::W(_)) { l.next(); }
                l.exp(b'('); let ft = self.parse_ty(l); let c = self.parse_const(l, ft); assert!(l.eat("to")); let tt = self.parse_ty(l); l.exp(b')');
                if let Cst::I(x) = c { let w = self.tys.int_w(tt); let fw = self.tys.int_w(ft); let x = if op == "sext" { crate::expr::sx(x as u128, fw) as u64 } else { x }; Cst::I(x & crate::expr::mask64(w)) } else { c }
            }
            Tok::W(op @ ("add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr")) => {
                while matches!(l.t, Tok::W(_)) { l.next(); }
                l.exp(b'('); let at = self.parse_ty(l); let a = self.parse_const(l, at); l.exp(b','); let bt = self.parse_ty(l); let b = self.parse_const(l, bt); l.exp(b')');
                let w = self.tys.int_w(at);
                match (a, b) { (Cst::I(a), Cst::I(b)) => Cst::I(match op { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, "shl" => a << b, _ => a >> b } & crate::expr::mask64(w)), _ => panic!() }
            }
            Tok::W("icmp") => { let p = l.word(); l.exp(b'('); let at = self.parse_ty(l); let a = self.parse_const(l, at); l.exp(b','); let bt = self.parse_ty(l); let b = self.parse_const(l, bt); l.exp(b')'); match (a, b) { (Cst::I(a), Cst::I(b)) => Cst::I(match p { "eq" => a == b, "ne" => a != b, "ult" => a < b, "ugt" => a > b, "ule" => a <= b, "uge" => a >= b, _ => panic!() } as u64), _ => panic!() } }
            Tok::W("dso_local_equivalent") | Tok::W("no_cfi") => self.parse_const(l, ty),
            Tok::W(w) => {
                match t {
                    T::Int(bits) => {
                        let v: u128 = if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) { u128::from_str_radix(h, 16).unwrap() } else if let Ok(x) = w.parse::<i128>() { x as u128 } else { w.parse::<u128>().unwrap_or_else(|_| panic!("int const {:?}", w)) };
                        let v = v & crate::expr::mask(bits);
                        if bits <= 64 { Cst::I(v as u64) } else { Cst::B(v) }
                    }
                    T::F64 => { if let Some(h) = w.strip_prefix("0x") { Cst::I(u64::from_str_radix(h, 16).unwrap()) } else { Cst::I(parse_f(l, w).to_bits()) } }
                    T::F32 => { if let Some(h) = w.strip_prefix("0x") { Cst::I((f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64) } else { Cst::I((parse_f(l, w) as f32).to_bits() as u64) } }
                    _ => panic!("const {:?} of {:?}", w, t),
                }
            }
            t => panic!("const tok {:?} {:?}", t, ty),
        }
    }
    pub fn zero(&self, ty: Ty) -> Cst {
        match &self.tys.v[ty as usize] {
            T::Arr(n, e) => Cst::Agg(vec![self.zero(*e); *n as usize]),
            T::Vec(n, e) => Cst::Agg(vec![self.zero(*e); *n as usize]),
            T::Struct(f, _) => Cst::Agg(f.iter().map(|x| self.zero(*x)).collect()),
            T::Int(w) if *w > 64 => Cst::B(0),
            _ => Cst::I(0),
        }
    }
    fn step(&self, t: Ty, i: i64) -> (i64, Ty) {
        match &self.tys.v[t as usize] { T::Arr(_, e) | T::Vec(_, e) => (i * self.tys.size[*e as usize] as i64, *e), T::Struct(f, _) => (self.tys.offs[t as usize][i as usize] as i64, f[i as usize]), x => panic!("gep into {:?}", x) }
    }
    pub fn write_const(&self, c: &Cst, ty: Ty, out: &mut [u8]) {
        match (c, &self.tys.v[ty as usize]) {
            (Cst::Undef, _) => {}
            (Cst::I(v), _) => { let n = self.tys.size[ty as usize] as usize; for i in 0..n.min(8) { out[i] = (v >> (8 * i)) as u8 } }
            (Cst::B(v), _) => { let n = self.tys.size[ty as usize] as usize; for i in 0..n.min(16) { out[i] = (v >> (8 * i)) as u8 } }
            (Cst::Agg(v), T::Arr(_, e)) | (Cst::Agg(v), T::Vec(_, e)) => { let s = self.tys.size[*e as usize] as usize; for (i, x) in v.iter().enumerate() { self.write_const(x, *e, &mut out[i * s..]) } }
            (Cst::Agg(v), T::Struct(f, _)) => { for (i, x) in v.iter().enumerate() { let o = self.tys.offs[ty as usize][i] as usize; self.write_const(x, f[i], &mut out[o..]) } }
            x => panic!("write_const {:?}", x),
        }
    }

    fn op(&mut self, l: &mut Lx, ty: Ty, f: &mut FB) -> O {
        if let Tok::L(n) = l.t { l.next(); return O::R(f.reg(n)); }
        let c = self.parse_const(l, ty);
        match c { Cst::I(v) => O::C(v), Cst::Undef => O::C(0), c => { f.consts.push(c); O::K(f.consts.len() as u32 - 1) } }
    }
    fn tyop(&mut self, l: &mut Lx, f: &mut FB) -> (O, Ty) { let t = self.parse_ty(l); (self.op(l, t, f), t) }
    fn attrs(&mut self, l: &mut Lx) {
        loop {
            match l.t {
                Tok::W("noalias" | "noundef" | "nonnull" | "readonly" | "writeonly" | "readnone" | "signext" | "zeroext" | "inreg" | "immarg" | "nocapture" | "nofree" | "returned" | "noreturn" | "nest" | "writable" | "dead_on_unwind" | "allocalign" | "allocptr" | "swiftself" | "swifterror" | "noext" | "dead_on_return" | "nofpclass") => { l.next(); if l.t == Tok::P(b'(') { l.skip_parens() } }
                Tok::W("align") => { l.next(); if l.t == Tok::P(b'(') { l.skip_parens() } else { l.next(); } }
                Tok::W("dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range" | "captures" | "initializes" | "elementtype" | "inalloca" | "byref" | "memory" | "preallocated") => { l.next(); if l.t == Tok::P(b'(') { l.skip_parens() } }
                Tok::M(_) => { l.next(); }
                Tok::S(_) => { l.next(); if l.eatp(b'=') { l.next(); } }
                _ => break,
            }
        }
    }

    pub fn parse_func(&mut self, id: u32) -> Func {
        let (s, e) = self.funcs[id as usize].text.unwrap();
        let text: &'static str = &self.src[s..e];
        let hl = text.find('\n').unwrap();
        let mut f = FB { regs: HashMap::new(), consts: vec![], labels: HashMap::new(), nl: 0 };
        // header
        let mut l = Lx::new(&text[..hl]);
        loop { if let Tok::G(_) = l.t { l.next(); break; } l.next(); }
        l.exp(b'(');
        let mut params = vec![];
        let mut anon = 0;
        if !l.eatp(b')') { loop {
            if l.t == Tok::P(b'.') || l.is("...") { l.next(); while l.eatp(b'.') {} } else {
                self.parse_ty(&mut l); self.attrs(&mut l);
                if let Tok::L(n) = l.t { l.next(); params.push(f.reg(n)); if n.parse::<u32>().is_ok() { anon += 1 } } else { let n = anon.to_string(); anon += 1; params.push(f.reg(&n)); }
            }
            if l.eatp(b')') { break; } l.exp(b',');
        } }
        let mut bbs: Vec<(String, Vec<I>)> = vec![];
        let mut phis: Vec<(u32, u32, Vec<(O, String)>)> = vec![]; // (bb, dst, incoming)
        let body: &'static str = &text[hl + 1..];
        let mut l = Lx::new(body);
        let mut edges: Vec<(u32, String)> = vec![]; // from bb, to label
        if !is_label(&l, body) { bbs.push((anon.to_string(), vec![])); }
        loop {
            if l.t == Tok::Eof || l.t == Tok::P(b'}') { break; }
            if is_label(&l, body) { let n = match l.next() { Tok::W(n) | Tok::S(n) => n.to_string(), _ => unreachable!() }; l.exp(b':'); bbs.push((n, vec![])); continue; }
            let cur = bbs.len() as u32 - 1;
            let ins = self.parse_inst(&mut l, &mut f, cur, &mut phis, &mut edges);
            // skip to end of line (metadata etc.)
            while !l.nl && l.t != Tok::Eof { l.next(); }
            if let Some(i) = ins { bbs.last_mut().unwrap().1.push(i); }
        }
        // assemble
        let mut idx: HashMap<String, u32> = HashMap::new();
        for (i, b) in bbs.iter().enumerate() { idx.insert(b.0.clone(), i as u32); }
        let mut es = vec![];
        for (from, to) in &edges {
            let t = *idx.get(to).unwrap_or_else(|| panic!("label {} in {}", to, self.funcs[id as usize].name));
            let fname = &bbs[*from as usize].0;
            let mut copies = vec![];
            for (bb, d, inc) in &phis { if *bb == t { let (o, _) = inc.iter().find(|(_, n)| n == fname).unwrap_or_else(|| panic!("phi")); if *o != O::R(*d) { copies.push((*d, *o)); } } }
            es.push(Edge { to: t, copies });
        }
        let mut code = vec![]; let mut bb = vec![];
        for (_, b) in bbs { bb.push(code.len() as u32); code.extend(b); }
        Func { id, nregs: f.regs.len() as u32, params, code, bb, edges: es, consts: f.consts }
    }

    fn parse_inst(&mut self, l: &mut Lx<'static>, f: &mut FB, cur: u32, phis: &mut Vec<(u32, u32, Vec<(O, String)>)>, edges: &mut Vec<(u32, String)>) -> Option<I> {
        let mut dst = u32::MAX;
        if let Tok::L(n) = l.t { l.next(); l.exp(b'='); dst = f.reg(n); }
        let d = dst;
        let w = l.word();
        let mut edge = |l: &mut Lx<'static>| -> u32 { assert!(l.eat("label")); if let Tok::L(n) = l.next() { edges.push((cur, n.to_string())); edges.len() as u32 - 1 } else { panic!() } };
        Some(match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let op = match w { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem };
                while matches!(l.t, Tok::W("nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) { l.next(); }
                let ty = self.parse_ty(l); let a = self.op(l, ty, f); l.exp(b','); let b = self.op(l, ty, f);
                if let T::Vec(n, e) = self.tys.v[ty as usize] { I::VBin { op, n, w: self.tys.int_w(e), d, a, b } } else { I::Bin { op, w: self.tys.int_w(ty), d, a, b } }
            }
            "icmp" => {
                l.eat("samesign");
                let p = match l.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {}", x) };
                let ty = self.parse_ty(l); let a = self.op(l, ty, f); l.exp(b','); let b = self.op(l, ty, f);
                if let T::Vec(n, e) = self.tys.v[ty as usize] { I::VCmp { p, n, w: self.tys.int_w(e), d, a, b } } else { I::Icmp { p, w: self.tys.int_w(ty), d, a, b } }
            }
            "fcmp" => { while matches!(l.t, Tok::W("fast" | "nnan" | "ninf" | "nsz")) { l.next(); } let p = l.word().to_string(); let ty = self.parse_ty(l); let a = self.op(l, ty, f); l.exp(b','); let b = self.op(l, ty, f); if !self.tys.is_scalar(ty) { return Some(I::Unsup("vector fcmp".into())) } I::FCmp { p, w: self.tys.int_w(ty), d, a, b } }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                let k = match w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" | "addrspacecast" => Cast::BitCast, "ptrtoint" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, _ => Cast::FpTrunc };
                while matches!(l.t, Tok::W("nuw" | "nsw" | "nneg")) { l.next(); }
                let (a, from) = self.tyop(l, f); assert!(l.eat("to")); let to = self.parse_ty(l);
                if self.tys.is_scalar(from) && self.tys.is_scalar(to) { I::Cast { k, fw: self.tys.int_w(from), tw: self.tys.int_w(to), d, a } } else { I::VCast { k, from, to, d, a } }
            }
            "load" => {
                l.eat("atomic"); l.eat("volatile");
                let ty = self.parse_ty(l); l.exp(b','); let (p, _) = self.tyop(l, f);
                if self.tys.is_scalar(ty) { I::Load { d, w: self.tys.int_w(ty), p } } else { I::LoadT { d, ty, p } }
            }
            "store" => {
                l.eat("atomic"); l.eat("volatile");
                let (v, ty) = self.tyop(l, f); l.exp(b','); let (p, _) = self.tyop(l, f);
                if self.tys.is_scalar(ty) { I::Store { w: self.tys.int_w(ty), v, p } } else { I::StoreT { ty, v, p } }
            }
            "getelementptr" => {
                while matches!(l.t, Tok::W("inbounds" | "nuw" | "nusw")) { l.next(); }
                let sty = self.parse_ty(l); l.exp(b','); let (base, bt) = self.tyop(l, f);
                if !self.tys.is_scalar(bt) { return Some(I::Unsup("vector gep".into())); }
                let mut off = 0i64; let mut idx = vec![]; let mut cur = sty; let mut first = true;
                while !l.nl && l.eatp(b',') {
                    if let Tok::M(_) = l.t { break; }
                    let (o, it) = self.tyop(l, f); let iw = self.tys.int_w(it);
                    if first { first = false; match o { O::C(v) => off += crate::expr::sx(v as u128, iw) as i64 * self.tys.size[sty as usize] as i64, o => idx.push((o, iw, self.tys.size[sty as usize])) } }
                    else { match o { O::C(v) => { let (x, n) = self.step(cur, crate::expr::sx(v as u128, iw) as i64); off += x; cur = n; }
                        o => match self.tys.v[cur as usize] { T::Arr(_, e) | T::Vec(_, e) => { idx.push((o, iw, self.tys.size[e as usize])); cur = e } _ => panic!("gep dyn struct") } } }
                }
                match idx.len() { 0 => I::GepC { d, b: base, off }, 1 => I::Gep1 { d, b: base, off, i: idx[0].0, iw: idx[0].1, sc: idx[0].2 }, _ => I::Gep { d, g: Box::new(Gx { base, off, idx }) } }
            }
            "br" => { if l.is("label") { let e = edge(l); I::Br(e) } else { let (c, _) = self.tyop(l, f); l.exp(b','); let t = edge(l); l.exp(b','); let fl = edge(l); I::CBr { c, t, f: fl } } }
            "switch" => {
                let (v, ty) = self.tyop(l, f); l.exp(b','); let def = edge(l); l.exp(b'[');
                let mut cases = vec![]; let mut map = HashMap::new();
                while !l.eatp(b']') { let t = self.parse_ty(l); let c = self.parse_const(l, t); l.exp(b','); let e = edge(l); let k = match c { Cst::I(k) => k, Cst::B(k) => k as u64, _ => panic!() }; cases.push((k, e)); map.insert(k, e); }
                I::Switch(Box::new(Sw { w: self.tys.int_w(ty), v, def, cases, map }))
            }
            "ret" => { if l.eat("void") { I::Ret(None) } else { let (o, _) = self.tyop(l, f); I::Ret(Some(o)) } }
            "unreachable" | "resume" => { I::Unreachable }
            "phi" => {
                let ty = self.parse_ty(l); let mut inc = vec![];
                loop { l.exp(b'['); let o = self.op(l, ty, f); l.exp(b','); let n = match l.next() { Tok::L(n) => n.to_string(), _ => panic!() }; l.exp(b']'); inc.push((o, n)); if l.nl || !l.eatp(b',') { break; } if let Tok::M(_) = l.t { break; } }
                phis.push((cur, d, inc));
                return None;
            }
            "select" => {
                let (c, ct) = self.tyop(l, f); l.exp(b','); let (a, ty) = self.tyop(l, f); l.exp(b','); let (b, _) = self.tyop(l, f);
                if let T::Vec(n, e) = self.tys.v[ty as usize] { if let T::Vec(..) = self.tys.v[ct as usize] { return Some(I::VSel { d, n, w: self.tys.int_w(e), c, a, b }); } }
                if self.tys.is_scalar(ty) { I::Sel { d, w: self.tys.int_w(ty), ptr: self.tys.v[ty as usize] == T::Ptr, c, a, b } } else { I::SelAgg { d, ty, c, a, b } }
            }
            "extractvalue" => { let (a, _) = self.tyop(l, f); let mut path = vec![]; while !l.nl && l.eatp(b',') { if let Tok::M(_) = l.t { break; } path.push(l.word().parse().unwrap()); } I::Extract { d, a, path } }
            "insertvalue" => { let (a, ty) = self.tyop(l, f); l.exp(b','); let (v, _) = self.tyop(l, f); let mut path = vec![]; while !l.nl && l.eatp(b',') { if let Tok::M(_) = l.t { break; } path.push(l.word().parse().unwrap()); } I::Insert { d, ty, a, v, path } }
            "extractelement" => { let (a, _) = self.tyop(l, f); l.exp(b','); let (i, _) = self.tyop(l, f); I::ExtEl { d, a, i } }
            "insertelement" => { let (a, _) = self.tyop(l, f); l.exp(b','); let (v, _) = self.tyop(l, f); l.exp(b','); let (i, _) = self.tyop(l, f); I::InsEl { d, a, v, i } }
            "shufflevector" => {
                let (a, at) = self.tyop(l, f); l.exp(b','); let (b, _) = self.tyop(l, f); l.exp(b',');
                let mt = self.parse_ty(l); let m = self.parse_const(l, mt);
                let n = if let T::Vec(n, _) = self.tys.v[at as usize] { n } else { panic!() };
                let mask = match m { Cst::Agg(v) => v.iter().map(|c| match c { Cst::I(x) => *x as i32, _ => -1 }).collect(), _ => panic!() };
                I::Shuf { d, a, b, n, mask }
            }
            "alloca" => {
                l.eat("inalloca"); let ty = self.parse_ty(l); let mut n = O::C(1); let mut align = self.tys.align[ty as usize].max(1);
                while !l.nl && l.eatp(b',') { if l.eat("align") { align = l.word().parse().unwrap(); } else if let Tok::M(_) = l.t { break; } else { let (o, _) = self.tyop(l, f); n = o; } }
                I::Alloca { d, size: self.tys.size[ty as usize], align, n }
            }
            "freeze" => { let (a, _) = self.tyop(l, f); I::Copy { d, a } }
            "fence" => return None,
            "cmpxchg" => {
                l.eat("weak"); l.eat("volatile"); let (p, _) = self.tyop(l, f); l.exp(b','); let (a, ty) = self.tyop(l, f); l.exp(b','); let (b, _) = self.tyop(l, f);
                I::CmpXchg { d, w: self.tys.int_w(ty), p, a, b }
            }
            "atomicrmw" => {
                l.eat("volatile"); let op = match l.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => return Some(I::Unsup(format!("atomicrmw {}", x))) };
                let (p, _) = self.tyop(l, f); l.exp(b','); let (v, ty) = self.tyop(l, f);
                I::Rmw { op, d, w: self.tys.int_w(ty), p, v }
            }
            "landingpad" => { // multi-line: swallow clauses
                self.parse_ty(l); while l.is("cleanup") || l.is("catch") || l.is("filter") { if l.eat("cleanup") { continue; } l.next(); let t = self.parse_ty(l); let _ = self.parse_const(l, t); }
                I::Unreachable
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let mut inv = w == "invoke";
                if w != "call" && w != "invoke" { assert!(l.eat("call")); inv = false; }
                while matches!(l.t, Tok::W("fastcc" | "coldcc" | "ccc" | "nnan" | "fast" | "ninf" | "nsz" | "preserve_mostcc" | "cc" | "arcp" | "contract" | "afn" | "reassoc")) { l.next(); }
                self.attrs(l);
                if l.is("addrspace") { l.next(); l.skip_parens(); }
                let rty = self.parse_ty(l);
                // `parse_ty` folds "T (args)" function types into Func; the return type is then the declared one
                let mut asm = false;
                let callee = match l.next() {
                    Tok::G(n) => {
                        let mut n: String = n.to_string();
                        while let Some(a) = self.alias.get(&n) { n = a.clone(); }
                        let id = *self.fidx.get(&n).unwrap_or_else(|| panic!("callee {}", n));
                        if n.starts_with("llvm.") { Callee::Intr(n.to_string()) } else { Callee::F(id) }
                    }
                    Tok::L(n) => Callee::Ind(O::R(f.reg(n))),
                    Tok::W("asm") => { asm = true; while matches!(l.t, Tok::W(_)) { l.next(); } let a = match l.next() { Tok::S(s) => s.to_string(), _ => panic!() }; l.exp(b','); l.next(); Callee::Asm(a) }
                    Tok::W("inttoptr") => { l.exp(b'('); let t = self.parse_ty(l); let c = self.parse_const(l, t); l.eat("to"); self.parse_ty(l); l.exp(b')'); match c { Cst::I(v) => Callee::Ind(O::C(v)), _ => panic!() } }
                    Tok::W("undef" | "poison" | "null") => Callee::Ind(O::C(0)),
                    t => panic!("callee {:?}", t),
                };
                l.exp(b'(');
                let mut args = vec![];
                if !l.eatp(b')') { loop {
                    let t = self.parse_ty(l);
                    if self.tys.v[t as usize] == T::Meta { let mut dp = 0; loop { match l.t { Tok::P(b'(') => dp += 1, Tok::P(b')') if dp == 0 => break, Tok::P(b')') => dp -= 1, Tok::P(b',') if dp == 0 => break, _ => {} } l.next(); } args.push((O::C(0), t)); }
                    else { self.attrs(l); let o = self.op(l, t, f); args.push((o, t)); }
                    if l.eatp(b')') { break; } l.exp(b',');
                } }
                let mut next = u32::MAX;
                if inv {
                    loop { if l.eat("to") { break; } if l.t == Tok::P(b'[') { let mut d = 0; loop { match l.next() { Tok::P(b'[') => d += 1, Tok::P(b']') => { d -= 1; if d == 0 { break; } } _ => {} } } } else { l.next(); } }
                    next = edge(l); assert!(l.eat("unwind")); let _ = edge(l);
                }
                I::Call(Box::new(CallI { dst: if d == u32::MAX { None } else { Some(d) }, rty, callee, args, asm, next }))
            }
            x => I::Unsup(x.to_string()),
        })
    }
}
fn parse_f(l: &mut Lx, w: &str) -> f64 { let mut s = w.to_string(); if s.ends_with(['e', 'E']) && l.t == Tok::P(b'+') { l.next(); s.push_str(l.word()); } s.parse().unwrap() }
pub struct FB { regs: HashMap<String, u32>, pub consts: Vec<Cst>, #[allow(dead_code)] labels: HashMap<String, u32>, #[allow(dead_code)] nl: u32 }
impl FB { fn reg(&mut self, n: &str) -> u32 { if let Some(x) = self.regs.get(n) { return *x; } let i = self.regs.len() as u32; self.regs.insert(n.to_string(), i); i } }
fn is_label(l: &Lx, body: &str) -> bool { matches!(l.t, Tok::W(_) | Tok::S(_)) && body.as_bytes().get(l.p) == Some(&b':') }
fn tokstart(line: &str, p: usize, t: &Tok) -> usize { let n = match t { Tok::W(w) | Tok::M(w) => w.len(), Tok::L(w) | Tok::G(w) => { let n = w.len() + 1; if line.as_bytes()[p - 1] == b'"' { n + 2 } else { n } } Tok::S(w) => w.len() + 2, Tok::P(_) => 1, Tok::Eof => 0 }; p - n }
pub fn memchr(b: &[u8], c: u8, from: usize) -> usize { if from >= b.len() { return b.len(); } unsafe { let p = libc::memchr(b.as_ptr().add(from) as *const _, c as i32, b.len() - from); if p.is_null() { b.len() } else { p as usize - b.as_ptr() as usize } } }
fn fname(line: &str) -> String {
    let i = line.find('@').unwrap(); let r = &line[i + 1..];
    if let Some(q) = r.strip_prefix('"') { q[..q.find('"').unwrap()].to_string() } else { r[..r.find('(').unwrap()].to_string() }
}
