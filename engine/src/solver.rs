//! Z3 back end (C API). One incremental solver per process; constraint-independence slicing,
//! model reuse and a query cache in front of it.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvneg(c: P, a: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
}

extern "C" fn on_err(_c: P, code: c_int) { eprintln!("symex: z3 error {}", code); std::process::exit(3); }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum R { Sat, Unsat, Unknown }

pub struct Solver {
    c: P,
    s: P,
    hard: P,
    bv: Vec<P>, // per expr, as a bit-vector
    bo: Vec<P>, // per width-1 expr, as a Bool
    mo: Vec<P>, // per product of atoms (Pool::monos)
    pub refinements: u64,
    one: P,
    zero: P,
    cache: FxMap<(u64, E), (R, Option<Rc<Vec<(u32, u128)>>>)>,
    pub queries: u64,
    pub hits: u64,
    pub time: f64,
    pub unknowns: u64,
    pub slow: f64,
    recent: Vec<Rc<Vec<(u32, u128)>>>,
}

pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Solver {
    pub fn new(hard_ms: u32) -> Solver {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let setp = |s: P, ms: u32| { let p = Z3_mk_params(c); Z3_params_inc_ref(c, p); let k = CString::new("timeout").unwrap(); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), ms); Z3_solver_set_params(c, s, p); };
            setp(s, 3000);
            let l = CString::new("QF_BV").unwrap();
            let hard = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, hard);
            setp(hard, hard_ms);
            let b1 = Z3_mk_bv_sort(c, 1);
            let one = Z3_mk_unsigned_int64(c, 1, b1);
            let zero = Z3_mk_unsigned_int64(c, 0, b1);
            Z3_inc_ref(c, one); Z3_inc_ref(c, zero);
            Solver { c, s, hard, bv: vec![], bo: vec![], mo: vec![], refinements: 0, one, zero, cache: FxMap::default(), queries: 0, hits: 0, time: 0.0, unknowns: 0, slow: 0.0, recent: vec![] }
        }
    }
    fn num(&self, w: u16, k: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as u32);
            if k <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, k as u64, s) } else { let t = CString::new(k.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
        }
    }
    fn get(v: &Vec<P>, e: E) -> P { v.get(e as usize).copied().unwrap_or(std::ptr::null_mut()) }
    fn put(c: P, v: &mut Vec<P>, e: E, p: P) { if v.len() <= e as usize { v.resize(e as usize + 64, std::ptr::null_mut()); } unsafe { Z3_inc_ref(c, p) }; v[e as usize] = p; }
    fn tb(&mut self, p: &Pool, e: E) -> P {
        let x = Self::get(&self.bo, e);
        if !x.is_null() { return x; }
        let n = p.n(e);
        let c = self.c;
        let r = unsafe { match n.op {
            Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Op::Eq => if p.w(n.a) == 1 { let a = self.tb(p, n.a); let b = self.tb(p, n.b); Z3_mk_eq(c, a, b) } else { let a = self.tv(p, n.a); let b = self.tv(p, n.b); Z3_mk_eq(c, a, b) },
            Op::Ult => { let a = self.tv(p, n.a); let b = self.tv(p, n.b); Z3_mk_bvult(c, a, b) }
            Op::Ule => { let a = self.tv(p, n.a); let b = self.tv(p, n.b); Z3_mk_bvule(c, a, b) }
            Op::Slt => { let a = self.tv(p, n.a); let b = self.tv(p, n.b); Z3_mk_bvslt(c, a, b) }
            Op::Sle => { let a = self.tv(p, n.a); let b = self.tv(p, n.b); Z3_mk_bvsle(c, a, b) }
            Op::And => { let v = [self.tb(p, n.a), self.tb(p, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
            Op::Or => { let v = [self.tb(p, n.a), self.tb(p, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
            Op::Xor => { let a = self.tb(p, n.a); if p.as_const(n.b) == Some(1) { Z3_mk_not(c, a) } else { let b = self.tb(p, n.b); Z3_mk_xor(c, a, b) } }
            Op::Ite => { let x = self.tb(p, n.a); let a = self.tb(p, n.b); let b = self.tb(p, n.c); Z3_mk_ite(c, x, a, b) }
            _ => { let v = self.tv(p, e); Z3_mk_eq(c, v, self.one) }
        } };
        Self::put(c, &mut self.bo, e, r);
        r
    }
    fn tv(&mut self, p: &Pool, e: E) -> P {
        let x = Self::get(&self.bv, e);
        if !x.is_null() { return x; }
        let n = p.n(e);
        let c = self.c;
        let boolish = n.w == 1 && matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::And | Op::Or | Op::Xor | Op::Ite);
        let r = unsafe {
            if boolish { let b = self.tb(p, e); Z3_mk_ite(c, b, self.one, self.zero) } else { match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, n.w as u32)),
                Op::Ite => { let x = self.tb(p, n.a); let a = self.tv(p, n.b); let b = self.tv(p, n.c); Z3_mk_ite(c, x, a, b) }
                Op::ZExt => { let a = self.tv(p, n.a); Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as u32, a) }
                Op::SExt => { let a = self.tv(p, n.a); Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as u32, a) }
                Op::Extract => { let a = self.tv(p, n.a); Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a) }
                Op::FInv => { let v = p.mono_id(true, &[n.a]); self.mono(v) }
                Op::FPoly => {
                    let v = p.polys[n.k as usize].clone(); let mut acc: Option<P> = None;
                    for (m, k) in v {
                        let t = if m.is_empty() { self.num(32, k as u128) } else { let x = if m.len() == 1 { self.tv(p, m[0]) } else { let v = p.mono_id(false, &m); self.mono(v) }; self.fscale(x, k as u64) };
                        acc = Some(match acc { None => t, Some(a) => self.fadd2(a, t) });
                    }
                    acc.unwrap()
                }
                Op::Mul if p.as_const(n.b) == Some(mask(n.w)) => { let a = self.tv(p, n.a); Z3_mk_bvneg(c, a) }
                _ => {
                    let a = self.tv(p, n.a); let b = self.tv(p, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b), Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b), Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b), Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b), _ => unreachable!(),
                    }
                }
            } }
        };
        Self::put(c, &mut self.bv, e, r);
        r
    }

    fn mono(&mut self, m: u32) -> P { let x = Self::get(&self.mo, m); if !x.is_null() { return x; } unsafe { let nm = CString::new(format!("m{m}")).unwrap(); let r = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), Z3_mk_bv_sort(self.c, 32)); Self::put(self.c, &mut self.mo, m, r); r } }
    /// sum of two numbers below 2^31-1, modulo 2^31-1
    fn fadd2(&mut self, a: P, b: P) -> P { unsafe { let c = self.c; let p = self.num(32, FP as u128); let s = Z3_mk_bvadd(c, a, b); let np = self.num(32, (1u128 << 32) - FP as u128); Z3_mk_ite(c, Z3_mk_bvult(c, s, p), s, Z3_mk_bvadd(c, s, np)) } }
    /// product with a constant: a sum of rotations
    fn fscale(&mut self, x: P, k: u64) -> P { unsafe {
        let c = self.c; let neg = (FP - k).count_ones() + 1 < k.count_ones(); let k = if neg { FP - k } else { k };
        let mut acc: Option<P> = None;
        for i in 0..31u32 { if k >> i & 1 == 1 {
            let t = if i == 0 { x } else { let r = Z3_mk_concat(c, Z3_mk_extract(c, 30 - i, 0, x), Z3_mk_extract(c, 30, 31 - i, x)); Z3_mk_zero_ext(c, 1, r) };
            acc = Some(match acc { None => t, Some(a) => self.fadd2(a, t) });
        } }
        let a = acc.unwrap();
        if neg { let z = self.num(32, 0); let np = Z3_mk_bvneg(c, a); let p = self.num(32, FP as u128); Z3_mk_ite(c, Z3_mk_eq(c, a, z), z, Z3_mk_bvadd(c, p, np)) } else { a }
    } }
    /// what is known of a product or inverse without looking at its value
    fn mono_facts(&mut self, p: &Pool, m: u32) -> Vec<P> { unsafe {
        let c = self.c; let x = self.mono(m); let (inv, atoms) = p.monos[m as usize].clone(); let b = self.num(32, FP as u128); let z = self.num(32, 0);
        let mut v = vec![Z3_mk_bvult(c, x, b)];
        let zs: Vec<P> = atoms.iter().map(|a| { let a = self.tv(p, *a); Z3_mk_eq(c, a, z) }).collect();
        let any = Z3_mk_or(c, zs.len() as c_uint, zs.as_ptr()); let xz = Z3_mk_eq(c, x, z);
        v.push(if inv { Z3_mk_or(c, 2, [any, Z3_mk_not(c, xz)].as_ptr()) } else { Z3_mk_eq(c, any, xz) });
        v
    } }
    /// holds of the product, and fails for the values given
    fn mono_lemma(&mut self, p: &Pool, m: u32, vals: &[u64], exact: bool) -> Vec<P> { unsafe {
        let c = self.c; let x = self.mono(m); let (inv, atoms) = p.monos[m as usize].clone(); let ts: Vec<P> = atoms.iter().map(|a| self.tv(p, *a)).collect();
        let eqs: Vec<P> = ts.iter().zip(vals).map(|(t, v)| { let k = self.num(32, *v as u128); Z3_mk_eq(c, *t, k) }).collect();
        let imp = |s: &mut Self, pre: &[P], k: P| { let _ = &s; let a = Z3_mk_and(c, pre.len() as c_uint, pre.as_ptr()); Z3_mk_or(c, 2, [Z3_mk_not(c, a), k].as_ptr()) };
        if exact {
            let p64 = self.num(64, FP as u128); let w = |t: P| Z3_mk_zero_ext(c, 32, t);
            if inv { let r = Z3_mk_bvurem(c, Z3_mk_bvmul(c, w(x), w(ts[0])), p64); let one = self.num(64, 1); let z = self.num(32, 0); return vec![Z3_mk_or(c, 2, [Z3_mk_eq(c, ts[0], z), Z3_mk_eq(c, r, one)].as_ptr())]; }
            let mut r = w(ts[0]); for t in &ts[1..] { r = Z3_mk_bvurem(c, Z3_mk_bvmul(c, r, w(*t)), p64); }
            return vec![Z3_mk_eq(c, w(x), r)];
        }
        if inv { let k = self.num(32, finv_const(vals[0]) as u128); let k = Z3_mk_eq(c, x, k); return vec![imp(self, &eqs, k)]; }
        if ts.len() == 2 {
            let mut v = vec![];
            for (i, j) in [(0, 1), (1, 0)] { if vals[i] != 0 { let t = self.fscale(ts[j], vals[i]); let k = Z3_mk_eq(c, x, t); v.push(imp(self, &eqs[i..i + 1], k)); } }
            if !v.is_empty() { return v; }
        }
        let val = vals.iter().fold(1u64, |a, b| a * (b % FP) % FP); let k = self.num(32, val as u128); let k = Z3_mk_eq(c, x, k); vec![imp(self, &eqs, k)]
    } }
    fn val(&mut self, m: P, a: P) -> u128 { unsafe { let mut o: P = std::ptr::null_mut(); Z3_model_eval(self.c, m, a, true, &mut o); CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap().parse().unwrap() } }

    /// constraints of `pc` transitively sharing variables with `q`
    pub fn slice(pool: &mut Pool, pc: &[E], q: E) -> Vec<E> {
        let qv = pool.varset(q);
        let mut set: Vec<u32> = (*qv).clone();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|e| pool.varset(*e)).collect();
        loop {
            let mut changed = false;
            for (i, v) in sets.iter().enumerate() {
                if used[i] { continue; }
                if v.iter().any(|x| set.binary_search(x).is_ok()) {
                    used[i] = true; out.push(pc[i]);
                    for x in v.iter() { if let Err(p) = set.binary_search(x) { set.insert(p, *x); changed = true; } }
                }
            }
            if !changed { break; }
        }
        out.sort_unstable();
        out.dedup();
        out
    }

    /// is `pc && q` satisfiable?  Returns values for the variables of the slice.
    pub fn check(&mut self, pool: &mut Pool, pc: &[E], q: E) -> (R, Option<Rc<Vec<(u32, u128)>>>) {
        if let Some(k) = pool.as_const(q) { if k == 0 { return (R::Unsat, None); } }
        let sl = Self::slice(pool, pc, q);
        let mut h = FxH::default();
        use std::hash::Hasher;
        for e in &sl { h.write_u32(*e); }
        let key = (h.finish(), q);
        if let Some(r) = self.cache.get(&key) { self.hits += 1; return r.clone(); }
        let t = Instant::now();
        self.queries += 1;
        // variables of the slice
        let mut vars: Vec<u32> = vec![];
        for e in sl.iter().chain([&q]) { for v in pool.varset(*e).iter() { if let Err(p) = vars.binary_search(v) { vars.insert(p, *v); } } }
        let r = unsafe {
            let c = self.c;
            let mut out = (R::Unknown, None);
            let mut monos: Vec<u32> = vec![];
            for e in sl.iter().chain([&q]) { monos.extend(pool.monoset(*e).iter()); }
            monos.sort_unstable(); monos.dedup();
            let bounded: Vec<(E, u64)> = vars.iter().filter_map(|v| pool.vmax.get(v).map(|m| (pool.vars[*v as usize].2, *m))).collect();
            'pass: for pass in 0..2 {
                let s = if pass == 0 { self.s } else { self.hard };
                Z3_solver_push(c, s);
                for (v, m) in &bounded { let a = self.tv(pool, *v); let k = self.num(32, *m as u128); Z3_solver_assert(c, s, Z3_mk_bvule(c, a, k)); }
                for m in &monos { for a in self.mono_facts(pool, *m) { Z3_solver_assert(c, s, a); } }
                for e in &sl { let a = self.tb(pool, *e); Z3_solver_assert(c, s, a); }
                let a = self.tb(pool, q);
                Z3_solver_assert(c, s, a);
                let mut round = 0;
                loop {
                    let k = Z3_solver_check(c, s);
                    if k == 1 {
                        let m = Z3_solver_get_model(c, s);
                        Z3_model_inc_ref(c, m);
                        let mut vals = vec![];
                        for v in &vars { let ve = pool.vars[*v as usize].2; let a = self.tv(pool, ve); vals.push((*v, self.val(m, a))); }
                        if !monos.is_empty() {
                            // the model is one only if the products have their values in it
                            let mut dense = vec![]; for (v, x) in &vals { if dense.len() <= *v as usize { dense.resize(*v as usize + 1, 0u128); } dense[*v as usize] = *x; }
                            pool.new_epoch();
                            let mut wrong = vec![];
                            for i in &monos {
                                let (inv, atoms) = pool.monos[*i as usize].clone(); let av: Vec<u64> = atoms.iter().map(|a| pool.eval(*a, &dense) as u64).collect();
                                let t = if inv { finv_const(av[0]) } else { av.iter().fold(1u64, |a, b| a * (b % FP) % FP) };
                                let x = self.mono(*i); if self.val(m, x) as u64 != t && !(inv && av[0] == 0) { wrong.push((*i, av)); }
                            }
                            pool.new_epoch();
                            let ok = wrong.is_empty() || { let mut ok = pool.eval(q, &dense) == 1; for e in &sl { ok = ok && pool.eval(*e, &dense) == 1; } pool.new_epoch(); ok };
                            if !ok {
                                Z3_model_dec_ref(c, m); round += 1; self.refinements += 1;
                                if round > 12 && pass == 0 { break; }
                                if round > 40 { let mut all = vec![]; for i in &monos { all.extend(self.mono_lemma(pool, *i, &[], true)); } for a in all { Z3_solver_assert(c, s, a); } if round > 42 { break; } continue; }
                                for (i, av) in wrong { for a in self.mono_lemma(pool, i, &av, false) { Z3_solver_assert(c, s, a); } }
                                continue;
                            }
                        }
                        Z3_model_dec_ref(c, m);
                        let vals = Rc::new(vals);
                        self.recent.push(vals.clone());
                        out = (R::Sat, Some(vals));
                    } else if k == -1 { out = (R::Unsat, None); }
                    break;
                }
                Z3_solver_pop(c, s, 1);
                if out.0 != R::Unknown { break 'pass; }
            }
            out
        };
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slow { self.slow = dt; }
        if r.0 == R::Unknown { self.unknowns += 1; }
        if std::env::var("SYMEX_Q").is_ok() { eprintln!("query {:?} {:.4} {} | {}", r.0, dt, pool.show(q, 5), sl.iter().map(|e| pool.show(*e, 4)).collect::<Vec<_>>().join(" & ")); }
        if dt > 2.0 && std::env::var("SYMEX_V").is_ok() { eprintln!("slow query {:.1}s {:?}: {}", dt, r.0, pool.show(q, 6)); }
        self.cache.insert(key, r.clone());
        r
    }
    #[allow(dead_code)]
    pub fn drop_hard(&mut self) { unsafe { Z3_solver_dec_ref(self.c, self.hard) } }
}
