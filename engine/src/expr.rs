//! Hash-consed bit-vector expression DAG with local simplification and interval bounds.
//! Booleans are width-1 bit-vectors.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxH>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
    FPoly, FInv, // arithmetic modulo 2^31-1: a polynomial over atoms (normal form), an inverse
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128, // constant value / extract low bit / var id
}

pub struct Pool {
    pub nodes: Vec<Node>,
    pub lo: Vec<u64>, // unsigned interval, meaningful for w<=64
    pub hi: Vec<u64>,
    cons: FxMap<Node, E>,
    pub vars: Vec<(String, u16, E)>,
    varset: Vec<Option<std::rc::Rc<Vec<u32>>>>,
    eval_val: Vec<u128>,
    eval_ep: Vec<u32>,
    epoch: u32,
    xcache: FxMap<(E, u16, u16), E>,
    pub polys: Vec<Poly>,
    pmap: FxMap<Poly, u32>,
    /// products of atoms and inverses, which the solver sees as unknowns with lemmas
    pub monos: Vec<(bool, Vec<E>)>,
    mmap: FxMap<(bool, Vec<E>), u32>,
    mset: FxMap<E, std::rc::Rc<Vec<u32>>>,
    pub vmax: FxMap<u32, u64>, // variables with a known maximum
}
/// sum of coefficient times product of atoms; sorted, no zero coefficients
pub type Poly = Vec<(Vec<E>, u32)>;
pub const FP: u64 = 0x7fff_ffff;
pub fn fpow(b: u64, mut e: u64) -> u64 { let mut r = 1; let mut b = b % FP; while e > 0 { if e & 1 == 1 { r = r * b % FP; } b = b * b % FP; e >>= 1; } r }
pub fn finv_const(x: u64) -> u64 { fpow(x, FP - 2) }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn mask64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn bin_const(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = sx(a, w); if b >= w as u128 { if s < 0 { m } else { 0 } } else { (s >> b) as u128 } }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }) & if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { m }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { nodes: vec![], lo: vec![], hi: vec![], cons: FxMap::default(), vars: vec![], varset: vec![], eval_val: vec![], eval_ep: vec![], epoch: 1, xcache: FxMap::default(), polys: vec![], pmap: FxMap::default(), monos: vec![], mmap: FxMap::default(), mset: FxMap::default(), vmax: FxMap::default() };
        // id 0 reserved
        p.raw(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: u128::MAX });
        p
    }
    fn raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.cons.get(&n) { return e; }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        let (l, h) = self.bounds(&n);
        self.lo.push(l);
        self.hi.push(h);
        self.varset.push(None);
        self.eval_val.push(0);
        self.eval_ep.push(0);
        self.cons.insert(n, e);
        e
    }
    fn bounds(&self, n: &Node) -> (u64, u64) {
        let w = n.w;
        if w > 64 { return (0, u64::MAX); }
        let m = mask64(w);
        let r = |e: E| -> Option<(u64, u64)> { if self.nodes[e as usize].w <= 64 { Some((self.lo[e as usize], self.hi[e as usize])) } else { None } };
        match n.op {
            Op::Const => (n.k as u64, n.k as u64),
            Op::Var => (0, self.vmax.get(&(n.k as u32)).copied().unwrap_or(m)),
            Op::FPoly | Op::FInv => (0, FP - 1),
            Op::Add => {
                let (al, ah) = r(n.a).unwrap(); let (bl, bh) = r(n.b).unwrap();
                match ah.checked_add(bh) { Some(h) if h <= m => (al + bl, h),
                    _ => {
                        // both ends overflow exactly once (e.g. x + (-c) with x >= c)
                        let l = al as u128 + bl as u128; let h = ah as u128 + bh as u128;
                        if l > m as u128 && h <= 2 * m as u128 + 1 { ((l - m as u128 - 1) as u64, (h - m as u128 - 1) as u64) } else { (0, m) }
                    } }
            }
            Op::Mul => {
                let (al, ah) = r(n.a).unwrap(); let (bl, bh) = r(n.b).unwrap();
                match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => (0, m) }
            }
            Op::UDiv => { let (al, ah) = r(n.a).unwrap(); let (bl, bh) = r(n.b).unwrap(); if bl > 0 { (al / bh, ah / bl) } else { (0, m) } }
            Op::URem => { let (_, ah) = r(n.a).unwrap(); let (bl, bh) = r(n.b).unwrap(); if bl > 0 { (0, ah.min(bh - 1)) } else { (0, ah.max(0)) } }
            Op::And => { let (_, ah) = r(n.a).unwrap(); let (_, bh) = r(n.b).unwrap(); (0, ah.min(bh)) }
            Op::Or => {
                let (al, ah) = r(n.a).unwrap(); let (bl, bh) = r(n.b).unwrap();
                let x = ah | bh; let h = if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() };
                (al.max(bl), h.min(m))
            }
            Op::Xor => {
                let (_, ah) = r(n.a).unwrap(); let (_, bh) = r(n.b).unwrap();
                let x = ah | bh; let h = if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() };
                (0, h.min(m))
            }
            Op::LShr => { let (_, ah) = r(n.a).unwrap(); (0, ah) }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => (0, 1),
            Op::Ite => { let (al, ah) = r(n.b).unwrap(); let (bl, bh) = r(n.c).unwrap(); (al.min(bl), ah.max(bh)) }
            Op::ZExt => r(n.a).unwrap(),
            Op::SExt => { let (al, ah) = r(n.a).unwrap(); let aw = self.nodes[n.a as usize].w; if ah < (1u64 << (aw - 1)) { (al, ah) } else { (0, m) } }
            Op::Extract => { if n.k == 0 { if let Some((al, ah)) = r(n.a) { if ah <= m { return (al, ah); } } } 
                 if let Some((_, ah)) = r(n.a) { return (0, m.min(if n.k >= 64 {0} else {ah >> n.k as u32})); }
                 (0, m) }
            Op::Concat => { let lw = self.nodes[n.b as usize].w as u32; let (al, ah) = r(n.a).unwrap(); let (bl, bh) = r(n.b).unwrap(); if lw >= 64 { return (0, m) } ((al << lw) | bl, (ah << lw) | bh) }
            _ => (0, m),
        }
    }
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn cst(&mut self, w: u16, v: u128) -> E { self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn tru(&mut self) -> E { self.cst(1, 1) }
    pub fn fls(&mut self) -> E { self.cst(1, 0) }
    pub fn as_const(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn var(&mut self, name: &str, w: u16) -> E {
        let id = self.vars.len();
        let e = self.raw(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 });
        self.vars.push((name.to_string(), w, e));
        e
    }
    /// a variable of the field: at most 2^31-2
    pub fn fvar(&mut self, name: &str) -> E { let id = self.vars.len() as u32; self.vmax.insert(id, FP - 1); self.var(name, 32) }
    pub fn is_felt(&self, e: E) -> bool { let n = self.n(e); n.w == 32 && self.hi[e as usize] < FP }
    fn bit(&self, e: E) -> Option<E> { let n = self.n(e); if n.op == Op::ZExt && self.w(n.a) == 1 { Some(n.a) } else { None } }
    fn poly_of(&mut self, e: E) -> Poly {
        let n = self.n(e);
        match n.op {
            Op::Const => if n.k == 0 { vec![] } else { vec![(vec![], n.k as u32)] },
            Op::FPoly => self.polys[n.k as usize].clone(),
            // a choice of two constants is a constant and a multiple of a bit
            Op::Ite => match (self.as_const(n.b), self.as_const(n.c)) { (Some(x), Some(y)) if (x as u64) < FP && (y as u64) < FP => { let z = self.zext(n.a, 32); let v = vec![(vec![], y as u32), (vec![z], ((x as u64 + FP - y as u64) % FP) as u32)]; Self::norm(v.into_iter().filter(|m| m.1 != 0).collect()) } _ => vec![(vec![e], 1)] },
            Op::ZExt => { if let Some(c) = self.bit(e) { let m = self.n(c); if m.op == Op::Xor && self.as_const(m.b) == Some(1) { let z = self.zext(m.a, 32); return Self::norm(vec![(vec![], 1), (vec![z], FP as u32 - 1)]); } } vec![(vec![e], 1)] }
            _ => vec![(vec![e], 1)],
        }
    }
    /// the atoms of a product, its bits joined
    fn join(&mut self, m: Vec<E>) -> Vec<E> {
        let mut acc: Option<E> = None; let mut n = 0; let mut o = vec![];
        for x in m { match self.bit(x) { Some(c) => { n += 1; acc = Some(match acc { None => c, Some(a) => self.and(a, c) }) } None => o.push(x) } }
        if n == 0 { return o; }
        let a = acc.unwrap(); if self.as_const(a) == Some(0) { let z = self.cst(32, 0); return vec![z]; }
        let z = self.zext(a, 32); o.push(z); o.sort_unstable(); o
    }
    fn mk_poly(&mut self, v: Poly) -> E {
        if v.is_empty() { return self.cst(32, 0); }
        if v.len() == 1 { if v[0].0.is_empty() { return self.cst(32, v[0].1 as u128); } if v[0].0.len() == 1 && v[0].1 == 1 { return v[0].0[0]; } }
        let (k0, rest) = if v[0].0.is_empty() { (v[0].1 as u64, &v[1..]) } else { (0, &v[..]) };
        if rest.len() == 1 && rest[0].0.len() == 1 { if let Some(c) = self.bit(rest[0].0[0]) { let hi = self.cst(32, ((k0 + rest[0].1 as u64) % FP) as u128); let lo = self.cst(32, k0 as u128); return self.ite(c, hi, lo); } }
        let k = match self.pmap.get(&v) { Some(k) => *k, None => { let k = self.polys.len() as u32; self.polys.push(v.clone()); self.pmap.insert(v, k); k } };
        self.raw(Node { op: Op::FPoly, w: 32, a: 0, b: 0, c: 0, k: k as u128 })
    }
    fn norm(mut v: Poly) -> Poly { v.sort(); let mut o: Poly = vec![]; for (m, c) in v { match o.last_mut() { Some(l) if l.0 == m => l.1 = ((l.1 as u64 + c as u64) % FP) as u32, _ => o.push((m, c)) } if o.last().unwrap().1 == 0 { o.pop(); } } o }
    pub fn fadd(&mut self, a: E, b: E) -> E {
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if self.as_const(b).is_some() && self.n(a).op == Op::Ite && self.is_const_tree(a, 40) { return self.map_tree(a, &mut |p, x| p.fadd(x, b)); }
        let mut v = self.poly_of(a); v.extend(self.poly_of(b)); if v.len() > 200 { v = vec![(vec![a], 1), (vec![b], 1)]; } let v = Self::norm(v); self.mk_poly(v) }
    /// the same field element, with what is known of its atoms put in
    pub fn fpin(&mut self, e: E, pins: &HashMap<E, u64>) -> E {
        if self.as_const(e).is_some() { return e; }
        if let Some(k) = pins.get(&e) { return self.cst(32, *k as u128); }
        if !matches!(self.n(e).op, Op::FPoly | Op::ZExt | Op::Ite) { return e; }
        let pin = |s: &Self, x: &E| pins.get(x).copied().or_else(|| s.bit(*x).and_then(|c| pins.get(&c).copied()));
        let v = self.poly_of(e); if !v.iter().any(|(m, _)| m.iter().any(|x| pin(self, x).is_some())) { return e; }
        let v = v.into_iter().map(|(m, c)| { let mut c = c as u64; let mut o = vec![]; for x in m { match pin(self, &x) { Some(k) => c = c * (k % FP) % FP, None => o.push(x) } } (o, c as u32) }).filter(|x| x.1 != 0).collect();
        let v = Self::norm(v); self.mk_poly(v)
    }
    pub fn fneg(&mut self, a: E) -> E { let v = self.poly_of(a).into_iter().map(|(m, c)| (m, FP as u32 - c)).collect(); self.mk_poly(v) }
    pub fn fmul(&mut self, a: E, b: E) -> E {
        let (mut x, mut y) = (self.poly_of(a), self.poly_of(b));
        if x.len() * y.len() > 60 || (x.len() > 0 && y.len() > 0 && x.iter().map(|m| m.0.len()).max().unwrap() + y.iter().map(|m| m.0.len()).max().unwrap() > 8 && x.len() + y.len() > 2) { if x.len() > 1 { x = vec![(vec![a], 1)]; } if y.len() > 1 { y = vec![(vec![b], 1)]; } }
        let mut v = vec![];
        for (m, c) in &x { for (n, d) in &y { let mut t = m.clone(); t.extend(n.iter().copied()); t.sort_unstable(); let t = if t.len() > 1 { self.join(t) } else { t }; if t.len() == 1 && self.as_const(t[0]) == Some(0) { continue; } v.push((t, (*c as u64 * *d as u64 % FP) as u32)); } }
        let v = Self::norm(v); self.mk_poly(v)
    }
    pub fn finv(&mut self, a: E) -> E { if let Some(k) = self.as_const(a) { return self.cst(32, finv_const(k as u64) as u128); } self.raw(Node { op: Op::FInv, w: 32, a, b: 0, c: 0, k: 0 }) }
    fn feq(&mut self, a: E, b: E) -> E {
        let nb = self.fneg(b); let d = self.fadd(a, nb);
        let v = self.poly_of(d);
        if v.is_empty() { return self.tru(); }
        let (k, rest): (u64, &[(Vec<E>, u32)]) = if v[0].0.is_empty() { (v[0].1 as u64, &v[1..]) } else { (0, &v[..]) };
        if rest.is_empty() { return self.fls(); }
        if rest.len() == 1 && (k == 0 || rest[0].0.len() == 1) {
            if k == 0 { let atoms = rest[0].0.clone(); let z = self.cst(32, 0); let mut r = self.fls(); for x in atoms { let e = self.raw_eq(x, z); r = self.or(r, e); } return r; }
            let t = self.cst(32, ((FP - k) * finv_const(rest[0].1 as u64) % FP) as u128); let x = rest[0].0[0]; return self.raw_eq(x, t);
        }
        if rest.len() == 2 && k == 0 && rest[0].0.len() == 1 && rest[1].0.len() == 1 && rest[0].1 as u64 + rest[1].1 as u64 == FP { let (x, y) = (rest[0].0[0], rest[1].0[0]); return self.raw_eq(x, y); }
        let i = finv_const(rest[rest.len() - 1].1 as u64);
        let v = v.iter().map(|(m, c)| (m.clone(), (*c as u64 * i % FP) as u32)).collect(); let p = self.mk_poly(v); let z = self.cst(32, 0);
        self.raw(Node { op: Op::Eq, w: 1, a: p, b: z, c: 0, k: 0 })
    }
    fn raw_eq(&mut self, a: E, b: E) -> E { let f = |p: &Pool, e: E| p.n(e).op == Op::FPoly; if f(self, a) || f(self, b) { let (a, b) = if self.n(a).op == Op::Const || (self.n(b).op != Op::Const && a > b) { (b, a) } else { (a, b) }; return self.raw(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 }); } self.bin(Op::Eq, a, b) }
    pub fn mono(&mut self, inv: bool, atoms: Vec<E>) -> u32 { let k = (inv, atoms); if let Some(m) = self.mmap.get(&k) { return *m; } let m = self.monos.len() as u32; self.monos.push(k.clone()); self.mmap.insert(k, m); m }
    pub fn mono_id(&self, inv: bool, atoms: &[E]) -> u32 { self.mmap[&(inv, atoms.to_vec())] }
    /// the products and inverses occurring in e
    pub fn monoset(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.mset.get(&e) { return v.clone(); }
        let n = self.n(e); let mut r: Vec<u32> = vec![];
        let kids = self.kids(e);
        for k in kids { r.extend(self.monoset(k).iter()); }
        if n.op == Op::FPoly { for (m, _) in self.polys[n.k as usize].clone() { if m.len() > 1 { let x = self.mono(false, m); r.push(x); } } }
        if n.op == Op::FInv { let x = self.mono(true, vec![n.a]); r.push(x); }
        r.sort_unstable(); r.dedup(); let r = std::rc::Rc::new(r); self.mset.insert(e, r.clone()); r
    }
    fn kids(&self, e: E) -> Vec<E> { let n = self.n(e); match n.op { Op::Const | Op::Var => vec![], Op::Ite => vec![n.a, n.b, n.c], Op::ZExt | Op::SExt | Op::Extract | Op::FInv => vec![n.a], Op::FPoly => { let mut v: Vec<E> = self.polys[n.k as usize].iter().flat_map(|m| m.0.iter().copied()).collect(); v.sort_unstable(); v.dedup(); v } _ => vec![n.a, n.b] } }
    pub fn range(&self, e: E) -> (u64, u64) { (self.lo[e as usize], self.hi[e as usize]) }
    pub fn size(&self) -> usize { self.nodes.len() }

    pub fn not(&mut self, a: E) -> E { let w = self.w(a); let m = self.cst(w, mask(w)); self.bin(Op::Xor, a, m) }
    pub fn neg(&mut self, a: E) -> E { let w = self.w(a); let m = self.cst(w, mask(w)); self.bin(Op::Mul, a, m) }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b { let w = self.w(a); return self.cst(w, 0); }
        let nb = self.neg(b); self.bin(Op::Add, a, nb)
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }
    pub fn ult(&mut self, a: E, b: E) -> E { self.bin(Op::Ult, a, b) }

    /// ITE tree whose leaves are all constants, with bounded size
    fn ite_consts(&self, e: E, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 { return false; }
        let n = self.n(e);
        match n.op { Op::Const => true, Op::Ite => self.ite_consts(n.b, budget) && self.ite_consts(n.c, budget), _ => false }
    }
    pub fn is_const_tree(&self, e: E, max: i32) -> bool { let mut b = max; self.n(e).op == Op::Ite && self.ite_consts(e, &mut b) }
    fn map_tree(&mut self, e: E, f: &mut dyn FnMut(&mut Pool, E) -> E) -> E {
        let n = self.n(e);
        if n.op == Op::Ite { let b = self.map_tree(n.b, f); let c = self.map_tree(n.c, f); self.ite(n.a, b, c) } else { f(self, e) }
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let na = self.n(a);
        let nb = self.n(b);
        debug_assert_eq!(na.w, nb.w, "{:?} {:?} {:?}", op, na, nb);
        let w = na.w;
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if na.op == Op::Const && nb.op == Op::Const { return self.cst(rw, bin_const(op, w, na.k, nb.k)); }
        // constants to the right for commutative ops
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if na.op == Op::Const || (nb.op != Op::Const && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let na = self.n(a);
        let nb = self.n(b);
        let m = mask(w);
        // push into constant ITE trees
        if nb.op == Op::Const && na.op == Op::Ite && op != Op::Eq && self.is_const_tree(a, 40) {
            return self.map_tree(a, &mut |p, x| p.bin(op, x, b));
        }
        if na.op == Op::Const && nb.op == Op::Ite && self.is_const_tree(b, 40) {
            return self.map_tree(b, &mut |p, x| p.bin(op, a, x));
        }
        match op {
            Op::Add => {
                if nb.op == Op::Const {
                    if nb.k == 0 { return a; }
                    if na.op == Op::Add && self.n(na.b).op == Op::Const { let k = self.cst(w, self.n(na.b).k.wrapping_add(nb.k)); return self.bin(Op::Add, na.a, k); }
                } else {
                    // (x + c) + y -> (x + y) + c
                    if na.op == Op::Add && self.n(na.b).op == Op::Const { let s = self.bin(Op::Add, na.a, b); return self.bin(Op::Add, s, na.b); }
                    if nb.op == Op::Add && self.n(nb.b).op == Op::Const { let s = self.bin(Op::Add, a, nb.a); return self.bin(Op::Add, s, nb.b); }
                    // x + (-1)*x = 0 ; x + (y - x)
                    if self.is_neg_of(a, b) || self.is_neg_of(b, a) { return self.cst(w, 0); }
                    if nb.op == Op::Add { if self.is_neg_of(nb.a, a) || self.is_neg_of(a, nb.a) { return nb.b; } if self.is_neg_of(nb.b, a) || self.is_neg_of(a, nb.b) { return nb.a; } }
                    if na.op == Op::Add { if self.is_neg_of(na.a, b) || self.is_neg_of(b, na.a) { return na.b; } if self.is_neg_of(na.b, b) || self.is_neg_of(b, na.b) { return na.a; } }
                    if let Some(r) = self.disjoint(a, b) { return r; }
                }
            }
            Op::Mul => {
                if nb.op == Op::Const {
                    if nb.k == 0 { return b; }
                    if nb.k == 1 { return a; }
                    if na.op == Op::Mul && self.n(na.b).op == Op::Const { let k = self.cst(w, self.n(na.b).k.wrapping_mul(nb.k)); return self.bin(Op::Mul, na.a, k); }
                    if nb.k.is_power_of_two() { let s = self.cst(w, nb.k.trailing_zeros() as u128); return self.bin(Op::Shl, a, s); }
                    if nb.k == m && na.op == Op::Add {
                        // -(x + y) = -x + -y
                        let x = self.bin(Op::Mul, na.a, b); let y = self.bin(Op::Mul, na.b, b); return self.bin(Op::Add, x, y);
                    }
                }
            }
            Op::UDiv => { if nb.op == Op::Const {
                if nb.k == 1 { return a; }
                if nb.k.is_power_of_two() { let s = self.cst(w, nb.k.trailing_zeros() as u128); return self.bin(Op::LShr, a, s); }
                if w <= 64 && nb.k != 0 && (self.hi[a as usize] as u128) < nb.k { return self.cst(w, 0); }
                // narrow the division
                if w <= 64 && nb.k != 0 { let need = 64 - self.hi[a as usize].max(nb.k as u64).leading_zeros() as u16; if need < w && need > 0 && w > 8 && need + 8 <= w {
                    let x = self.extract(a, 0, need); let y = self.cst(need, nb.k); let q = self.bin(Op::UDiv, x, y); return self.zext(q, w); } }
            } }
            Op::URem => { if nb.op == Op::Const {
                if nb.k == 1 { return self.cst(w, 0); }
                if nb.k.is_power_of_two() { let s = self.cst(w, nb.k - 1); return self.bin(Op::And, a, s); }
                if w <= 64 && nb.k != 0 && (self.hi[a as usize] as u128) < nb.k { return a; }
                if w <= 64 && nb.k != 0 { let need = 64 - self.hi[a as usize].max(nb.k as u64).leading_zeros() as u16; if need < w && need > 0 && w > 8 && need + 8 <= w {
                    let x = self.extract(a, 0, need); let y = self.cst(need, nb.k); let q = self.bin(Op::URem, x, y); return self.zext(q, w); } }
            } }
            Op::And => {
                if a == b { return a; }
                if nb.op == Op::Const {
                    if nb.k == 0 { return b; }
                    if nb.k == m { return a; }
                    if w > 1 {
                        // low mask
                        let t = (nb.k + 1).is_power_of_two();
                        if t { let k = nb.k.count_ones() as u16; let x = self.extract(a, 0, k); return self.zext(x, w); }
                        // contiguous mask
                        let tz = nb.k.trailing_zeros() as u16; let sh = nb.k >> tz;
                        if (sh + 1).is_power_of_two() { let k = sh.count_ones() as u16; let x = self.extract(a, tz, k); let z = self.cst(tz, 0); let x = self.concat(x, z); return self.zext(x, w); }
                    }
                    if na.op == Op::And && self.n(na.b).op == Op::Const { let k = self.cst(w, self.n(na.b).k & nb.k); return self.bin(Op::And, na.a, k); }
                }
                if w == 1 {
                    if self.is_not_of(a, b) { return self.fls(); }
                    if na.op == Op::And && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt { let x = self.w(na.a).max(self.w(nb.a)); if x < w { let p = self.extract(a, 0, x); let q = self.extract(b, 0, x); let r = self.bin(Op::And, p, q); return self.zext(r, w); } }
            }
            Op::Or => {
                if a == b { return a; }
                if nb.op == Op::Const { if nb.k == 0 { return a; } if nb.k == m { return b; } }
                if w == 1 {
                    if self.is_not_of(a, b) { return self.tru(); }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
                }
                if let Some(r) = self.disjoint(a, b) { return r; }
                if na.op == Op::ZExt && nb.op == Op::ZExt { let x = self.w(na.a).max(self.w(nb.a)); if x < w { let p = self.extract(a, 0, x); let q = self.extract(b, 0, x); let r = self.bin(Op::Or, p, q); return self.zext(r, w); } }
            }
            Op::Xor => {
                if a == b { return self.cst(w, 0); }
                if nb.op == Op::Const {
                    if nb.k == 0 { return a; }
                    if na.op == Op::Xor && self.n(na.b).op == Op::Const { let k = self.cst(w, self.n(na.b).k ^ nb.k); return self.bin(Op::Xor, na.a, k); }
                    if w == 1 {
                        // not: push into comparisons
                        match na.op { Op::Ult => return self.bin(Op::Ule, na.b, na.a), Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a), Op::Sle => return self.bin(Op::Slt, na.b, na.a), _ => {} }
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt { let x = self.w(na.a).max(self.w(nb.a)); if x < w { let p = self.extract(a, 0, x); let q = self.extract(b, 0, x); let r = self.bin(Op::Xor, p, q); return self.zext(r, w); } }
            }
            Op::Shl => { if nb.op == Op::Const {
                if nb.k == 0 { return a; }
                if nb.k >= w as u128 { return self.cst(w, 0); }
                let s = nb.k as u16; let x = self.extract(a, 0, w - s); let z = self.cst(s, 0); return self.concat(x, z);
            } if na.op == Op::Const && na.k == 0 { return a; } }
            Op::LShr => { if nb.op == Op::Const {
                if nb.k == 0 { return a; }
                if nb.k >= w as u128 { return self.cst(w, 0); }
                let s = nb.k as u16; let x = self.extract(a, s, w - s); return self.zext(x, w);
            } if na.op == Op::Const && na.k == 0 { return a; } }
            Op::AShr => { if nb.op == Op::Const {
                if nb.k == 0 { return a; }
                let s = (nb.k.min(w as u128 - 1)) as u16; let x = self.extract(a, s, w - s); return self.sext(x, w);
            } }
            Op::Eq => {
                if a == b { return self.tru(); }
                if (na.op == Op::FPoly || nb.op == Op::FPoly) && self.is_felt(a) && self.is_felt(b) { return self.feq(a, b); }
                if w <= 64 { let (al, ah) = self.range(a); let (bl, bh) = self.range(b); if ah < bl || bh < al { return self.fls(); } }
                if w == 1 && nb.op == Op::Const { return if nb.k == 1 { a } else { self.not(a) }; }
                if nb.op == Op::Const {
                    match na.op {
                        Op::Add if self.n(na.b).op == Op::Const => { let k = self.cst(w, nb.k.wrapping_sub(self.n(na.b).k)); return self.bin(Op::Eq, na.a, k); }
                        Op::Xor if self.n(na.b).op == Op::Const => { let k = self.cst(w, nb.k ^ self.n(na.b).k); return self.bin(Op::Eq, na.a, k); }
                        Op::ZExt => { let iw = self.w(na.a); if nb.k > mask(iw) { return self.fls(); } let k = self.cst(iw, nb.k); return self.bin(Op::Eq, na.a, k); }
                        Op::SExt => { let iw = self.w(na.a); let t = nb.k & mask(iw); if (sx(t, iw) as u128) & m != nb.k { return self.fls(); } let k = self.cst(iw, t); return self.bin(Op::Eq, na.a, k); }
                        Op::Concat => { let lw = self.w(na.b); let kl = self.cst(lw, nb.k); let kh = self.cst(w - lw, nb.k >> lw); let x = self.bin(Op::Eq, na.b, kl); let y = self.bin(Op::Eq, na.a, kh); return self.and(x, y); }
                        Op::Ite => {
                            let cb = self.n(na.b).op == Op::Const; let cc = self.n(na.c).op == Op::Const;
                            if cb || cc {
                                let x = self.bin(Op::Eq, na.b, b); let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt { let x = self.w(na.a).max(self.w(nb.a)); if x < w { let p = self.extract(a, 0, x); let q = self.extract(b, 0, x); return self.bin(Op::Eq, p, q); } }
                    if na.op == Op::Add && nb.op == Op::Add {
                        if na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); }
                        if na.a == nb.a { return self.bin(Op::Eq, na.b, nb.b); }
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) { let x = self.bin(Op::Eq, na.a, nb.a); let y = self.bin(Op::Eq, na.b, nb.b); return self.and(x, y); }
                    if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a { let x = self.bin(Op::Eq, na.b, nb.b); let y = self.bin(Op::Eq, na.c, nb.c); return self.ite(na.a, x, y); }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.cst(1, (op == Op::Ule) as u128); }
                if w <= 64 {
                    let (al, ah) = self.range(a); let (bl, bh) = self.range(b);
                    if op == Op::Ult { if ah < bl { return self.tru(); } if al >= bh { return self.fls(); } }
                    else { if ah <= bl { return self.tru(); } if al > bh { return self.fls(); } }
                }
                // normalise Ule with a constant to Ult
                if op == Op::Ule && nb.op == Op::Const && nb.k < m { let k = self.cst(w, nb.k + 1); return self.bin(Op::Ult, a, k); }
                if op == Op::Ule && na.op == Op::Const && na.k > 0 { let k = self.cst(w, na.k - 1); return self.bin(Op::Ult, k, b); }
                if op == Op::Ult && nb.op == Op::Const && nb.k == 1 { let z = self.cst(w, 0); return self.eq(a, z); }
                if na.op == Op::ZExt && nb.op == Op::ZExt { let x = self.w(na.a).max(self.w(nb.a)); if x < w { let p = self.extract(a, 0, x); let q = self.extract(b, 0, x); return self.bin(op, p, q); } }
                if na.op == Op::ZExt && nb.op == Op::Const { let iw = self.w(na.a); if nb.k <= mask(iw) { let k = self.cst(iw, nb.k); return self.bin(op, na.a, k); } }
                if nb.op == Op::ZExt && na.op == Op::Const { let iw = self.w(nb.a); if na.k <= mask(iw) { let k = self.cst(iw, na.k); return self.bin(op, k, nb.a); } }
                if nb.op == Op::Const && na.op == Op::Concat && op == Op::Ult {
                    // concat(h,l) < k  when the low part of k is 0  ->  h < k>>lw
                    let lw = self.w(na.b); if nb.k & mask(lw) == 0 { let k = self.cst(w - lw, nb.k >> lw); return self.bin(Op::Ult, na.a, k); }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.cst(1, (op == Op::Sle) as u128); }
                if w <= 64 && w > 1 {
                    let half = 1u64 << (w - 1);
                    let (al, ah) = self.range(a); let (bl, bh) = self.range(b);
                    let an = ah < half; let bn = bh < half; let aneg = al >= half; let bneg = bl >= half;
                    if (an && bn) || (aneg && bneg) { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                    if an && bneg { return self.fls(); }
                    if aneg && bn { return self.tru(); }
                }
            }
            _ => {}
        }
        self.raw(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let na = self.n(a); let nb = self.n(b);
        (na.op == Op::Xor && na.a == b && self.as_const(na.b) == Some(mask(na.w))) || (nb.op == Op::Xor && nb.a == a && self.as_const(nb.b) == Some(mask(nb.w)))
            || (na.op == Op::Ult && nb.op == Op::Ule && na.a == nb.b && na.b == nb.a) || (nb.op == Op::Ult && na.op == Op::Ule && na.a == nb.b && na.b == nb.a)
    }
    fn is_neg_of(&self, a: E, b: E) -> bool { let na = self.n(a); na.op == Op::Mul && na.a == b && self.as_const(na.b) == Some(mask(na.w)) }
    /// a + b / a | b where the set bits cannot overlap at some cut point: rebuild as a concat
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let tz = |p: &Pool, e: E| -> u16 { let n = p.n(e); match n.op { Op::Concat if p.as_const(n.b) == Some(0) => p.w(n.b), Op::ZExt => { let m = p.n(n.a); if m.op == Op::Concat && p.as_const(m.b) == Some(0) { p.w(m.b) } else { 0 } } Op::Const if n.k != 0 => n.k.trailing_zeros() as u16, _ => 0 } };
        let aw = |p: &Pool, e: E| -> u16 { let n = p.n(e); match n.op { Op::ZExt => p.w(n.a), Op::Const => (128 - n.k.leading_zeros()) as u16, _ => n.w } };
        for (x, y) in [(a, b), (b, a)] {
            let t = tz(self, x);
            if t > 0 && t < w && aw(self, y) <= t {
                let h = self.extract(x, t, w - t);
                let l = self.extract(y, 0, t);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        let w = self.w(a);
        let nc = self.n(c);
        // ite(!c,a,b) -> ite(c,b,a)
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) && nc.w == 1 { return self.ite(nc.a, b, a); }
        if w == 1 {
            let ka = self.as_const(a); let kb = self.as_const(b);
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let nc = self.not(c); return self.and(nc, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.or(nc, a); }
                _ => {}
            }
        }
        let na = self.n(a); let nb = self.n(b);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Op::Ite && nb.b == a { let cc = self.or(c, nb.a); return self.ite(cc, a, nb.c); }
        self.raw(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => return self.cst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.is_const_tree(a, 40) => return self.map_tree(a, &mut |p, x| p.zext(x, w)),
            _ => {}
        }
        self.raw(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        match n.op {
            Op::Const => return self.cst(w, sx(n.k, n.w) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.is_const_tree(a, 40) => return self.map_tree(a, &mut |p, x| p.sext(x, w)),
            _ => {}
        }
        if n.w <= 64 && n.w > 1 && self.hi[a as usize] < (1u64 << (n.w - 1)) { return self.zext(a, w); }
        self.raw(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w { return a; }
        if matches!(n.op, Op::Const) { return self.cst(w, n.k >> lo); }
        if let Some(&r) = self.xcache.get(&(a, lo, w)) { return r; }
        let r = self.extract0(a, lo, w);
        self.xcache.insert((a, lo, w), r);
        r
    }
    fn extract0(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w, "extract {} {} of {:?}", lo, w, n);
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w); } if lo == 0 { return self.sext(n.a, w); } }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y); }
            Op::Ite => { if self.is_const_tree(a, 40) || (self.n(n.b).op != Op::Ite && self.n(n.c).op != Op::Ite) { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y); } }
            Op::Add | Op::Mul if lo == 0 => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y); }
            _ => {}
        }
        if n.w <= 64 && lo < 64 && (self.hi[a as usize] >> lo) == 0 { return self.cst(w, 0); }
        self.raw(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let nh = self.n(h); let nl = self.n(l);
        let w = nh.w + nl.w;
        if w > 128 { panic!("concat too wide"); }
        if nh.op == Op::Const && nl.op == Op::Const { return self.cst(w, (nh.k << nl.w) | nl.k); }
        if nh.op == Op::Const && nh.k == 0 { return self.zext(l, w); }
        // adjacent extracts
        let (hs, hl) = if nh.op == Op::Extract { (nh.a, nh.k as u16) } else { (h, 0) };
        let (ls, ll) = if nl.op == Op::Extract { (nl.a, nl.k as u16) } else { (l, 0) };
        if hs == ls && hl == ll + nl.w { return self.extract(hs, ll, w); }
        if nh.op == Op::Extract && nh.k as u16 == nl.w && matches!(self.n(nh.a).op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Ite) && self.extract(nh.a, 0, nl.w) == l { return self.extract(nh.a, 0, w); }
        // concat(zext(x), extract) where x adjacent
        if nh.op == Op::ZExt { let hx = nh.a; let c = self.concat(hx, l); return self.zext(c, w); }
        // concat(concat(x, y), l) with y,l adjacent
        if nh.op == Op::Concat {
            let y = self.n(nh.b);
            let (ys, yl) = if y.op == Op::Extract { (y.a, y.k as u16) } else { (nh.b, 0) };
            if (ys == ls && yl == ll + nl.w) || (y.op == Op::Const && nl.op == Op::Const) { let m = self.concat(nh.b, l); return self.concat(nh.a, m); }
        }
        if nl.op == Op::Concat {
            let y = self.n(nl.a);
            let (ys, yl) = if y.op == Op::Extract { (y.a, y.k as u16) } else { (nl.a, 0) };
            if (hs == ys && hl == yl + y.w) || (y.op == Op::Const && nh.op == Op::Const) { let m = self.concat(h, nl.a); return self.concat(m, nl.b); }
        }
        // concat of ites over the same condition
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a { let x = self.concat(nh.b, nl.b); let y = self.concat(nh.c, nl.c); return self.ite(nh.a, x, y); }
        if nh.op == Op::Ite && nl.op == Op::Const && self.n(nh.b).op == Op::Const && self.n(nh.c).op == Op::Const { let x = self.concat(nh.b, l); let y = self.concat(nh.c, l); return self.ite(nh.a, x, y); }
        if nl.op == Op::Ite && nh.op == Op::Const && self.n(nl.b).op == Op::Const && self.n(nl.c).op == Op::Const { let x = self.concat(h, nl.b); let y = self.concat(h, nl.c); return self.ite(nl.a, x, y); }
        self.raw(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }

    /// variables (ids into `vars`) occurring in e, sorted
    pub fn varset(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = &self.varset[e as usize] { return v.clone(); }
        let n = self.n(e);
        let kids = self.kids(e);
        let r = if n.op == Op::Var { std::rc::Rc::new(vec![n.k as u32]) } else {
            let sets: Vec<_> = kids.iter().map(|k| self.varset(*k)).collect();
            if sets.is_empty() { std::rc::Rc::new(vec![]) } else {
                let big = sets.iter().max_by_key(|s| s.len()).unwrap().clone();
                let mut extra: Vec<u32> = vec![];
                for s in &sets { if std::rc::Rc::ptr_eq(s, &big) { continue; } for v in s.iter() { if big.binary_search(v).is_err() { extra.push(*v); } } }
                if extra.is_empty() { big } else { let mut all = (*big).clone(); all.extend(extra); all.sort_unstable(); all.dedup(); std::rc::Rc::new(all) }
            }
        };
        self.varset[e as usize] = Some(r.clone());
        r
    }

    pub fn new_epoch(&mut self) { self.epoch += 1; }
    /// evaluate under a model (var id -> value); call new_epoch() when the model changes
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        if self.eval_ep[e as usize] == self.epoch { return self.eval_val[e as usize]; }
        let n = self.n(e);
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
            Op::Ite => { if self.eval(n.a, model) == 1 { self.eval(n.b, model) } else { self.eval(n.c, model) } }
            Op::ZExt => self.eval(n.a, model),
            Op::SExt => { let iw = self.w(n.a); (sx(self.eval(n.a, model), iw) as u128) & mask(n.w) }
            Op::Extract => (self.eval(n.a, model) >> n.k) & mask(n.w),
            Op::FInv => { let x = self.eval(n.a, model); finv_const(x as u64) as u128 }
            Op::FPoly => { let v = self.polys[n.k as usize].clone(); let mut s = 0u64; for (m, c) in v { let mut t = c as u64; for x in m { t = t * (self.eval(x, model) as u64 % FP) % FP; } s = (s + t) % FP; } s as u128 }
            Op::Concat => { let lw = self.w(n.b); (self.eval(n.a, model) << lw) | self.eval(n.b, model) }
            _ => { let w = self.w(n.a); let x = self.eval(n.a, model); let y = self.eval(n.b, model); bin_const(n.op, w, x, y) }
        };
        self.eval_ep[e as usize] = self.epoch;
        self.eval_val[e as usize] = v;
        v
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 { return "..".into(); }
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::FInv => format!("inv({})", self.show(n.a, depth - 1)),
            Op::FPoly => { let t: Vec<String> = self.polys[n.k as usize].iter().take(12).map(|(m, c)| format!("{}{}", c, m.iter().map(|x| format!("*{}", self.show(*x, depth - 1))).collect::<String>())).collect(); format!("[{}]", t.join(" + ")) }
            Op::Var => self.vars[n.k as usize].0.clone(),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
