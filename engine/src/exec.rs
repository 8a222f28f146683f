//! Symbolic interpreter for LLVM IR.
use crate::expr::*;
use crate::ir::{self, *};
use crate::ir::Cast as CK;
use crate::mem::*;
use crate::solver::{Solver, R};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val { I(u64), S(E), B(Rc<u128>), A(Rc<Vec<Val>>) }

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub base: u32, pub ip: u32, pub dst: u32, pub next: u32, pub sp: u64 }

#[derive(Clone)]
pub struct State {
    pub regs: Vec<Val>,
    pub fr: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u128>>,
    pub pins: Rc<HashMap<E, u64>>,
    pub sp: u64,
    pub hp: u64,
    pub inputs: Vec<(Rc<str>, u32, u16)>,
    pub obs: Vec<Val>,
    pub notes: Vec<(u64, u64, Vec<Val>)>,
    pub panic_ok: bool,
    pub fork_loads: bool, // a load from one of several addresses is a case distinction
    pub steps: u64,
    pub depth: u32,
    pub tls: HashMap<u64, u64>,
    pub fds: Rc<HashMap<u64, Fd>>,
    pub fs_rev: bool,
    pub cwd: Rc<Vec<u8>>,
    pub fs: Rc<BTreeMap<Vec<u8>, Node>>,
    pub forked: u32,
}
#[derive(Clone)]
pub enum Node { File(Rc<Vec<(u8, E)>>), Dir }
#[derive(Clone)]
pub struct Fd { pub path: Vec<u8>, pub pos: u64, pub dir: Option<Rc<Vec<(Vec<u8>, bool)>>> }

#[derive(Debug)]
pub enum End { Done, Pruned, Panic(String), Violation(String), Err(String), Abandon, PanicOk(String) }

pub type Res<T> = Result<T, End>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None, Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Strlen, Memchr, SVar, SAssume, SAssert, SReach, SObserve, SPanicOk, SForkLoads, SIs, STier, SConc, SNote,
    PanicFmt, PanicHandler, Abort, Zero, One, Getrandom, KeyCreate, GetSpec, SetSpec, Errno, Clock, Write, Exit, Neg1, RustAlloc, RustAllocZ, RustRealloc, RustDealloc, Memcpy, Memset, Sysconf, Getenv, Cwd, Open, Read, Close, Stat, Fstat, Realpath, OpenDir, ReadDir, CloseDir, Lseek, SFile, SDir, Statx, Syscall, NoAllocUnstable, Mkdir, Unlink, SFsGet, SFsCount, Dirfd, Chdir, FAdd, FSub, FMul, FInv, FVar,
}

pub struct Shared { pub active: std::sync::atomic::AtomicI64, pub stop: std::sync::atomic::AtomicI64, pub paths: std::sync::atomic::AtomicU64 }

#[derive(Default, Clone)]
pub struct Stats { pub paths: u64, pub done: u64, pub pruned: u64, pub panics_ok: u64, pub forks: u64, pub steps: u64, pub asserts: u64, pub asserts_sym: u64, pub funcs: BTreeSet<String>, pub reach: BTreeMap<String, u64>, pub samples: u64 }

pub struct Ex {
    pub m: Module,
    pub fns: Vec<Option<&'static Func>>,
    bi: Vec<Bi>,
    pub p: Pool,
    pub sv: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub out: Vec<String>,
    pub seen_viol: HashMap<String, u32>,
    pub abandon: bool,
    model_ptr: *const Vec<u128>,
    vmap: HashMap<(usize, String, u16), E>,
    pub on_push: Option<fn(&mut Ex)>,
    pub deadline: Instant,
    pub max_steps: u64,
    pub trace: bool,
    pub cut_panics: bool,
    pub prof: Option<HashMap<u32, u64>>,
    pub max_samples: u64,
    pub pages0: usize,
    pub siphash: bool,
}

fn err<T>(s: impl Into<String>) -> Res<T> { Err(End::Err(s.into())) }

fn builtin(n: &str) -> Bi {
    match n {
        "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "free" => Bi::Free, "posix_memalign" => Bi::PosixMemalign,
        "memcmp" | "bcmp" => Bi::Memcmp, "strlen" => Bi::Strlen, "memchr" => Bi::Memchr, "memcpy" | "memmove" => Bi::Memcpy, "memset" => Bi::Memset,
        "symex_var" => Bi::SVar, "symex_assume" => Bi::SAssume, "symex_assert" => Bi::SAssert, "symex_reach" => Bi::SReach, "symex_observe" => Bi::SObserve,
        "symex_panic_ok" => Bi::SPanicOk, "symex_fork_loads" => Bi::SForkLoads, "symex_is_symbolic" => Bi::SIs, "symex_tier" => Bi::STier, "symex_fadd" => Bi::FAdd, "symex_fsub" => Bi::FSub, "symex_fmul" => Bi::FMul, "symex_finv" => Bi::FInv, "symex_felt" => Bi::FVar, "symex_concretize" => Bi::SConc, "symex_note" => Bi::SNote,
        "symex_fs_file" => Bi::SFile, "symex_fs_dir" => Bi::SDir, "symex_fs_get" => Bi::SFsGet, "symex_fs_count" => Bi::SFsCount,
        "abort" => Bi::Abort, "getrandom" => Bi::Getrandom, "pthread_key_create" => Bi::KeyCreate, "pthread_getspecific" => Bi::GetSpec, "pthread_setspecific" => Bi::SetSpec,
        "getuid" | "getpwuid_r" => Bi::Zero, "__errno_location" => Bi::Errno, "clock_gettime" => Bi::Clock, "write" | "writev" => Bi::Write, "exit" | "_exit" => Bi::Exit, "getenv" => Bi::Getenv, "getcwd" => Bi::Cwd,
        "open64" | "open" => Bi::Open, "read" => Bi::Read, "close" => Bi::Close, "stat64" | "lstat64" => Bi::Stat, "fstat64" => Bi::Fstat, "realpath" => Bi::Realpath, "chdir" => Bi::Chdir, "opendir" => Bi::OpenDir, "readdir64" | "readdir64_r" => Bi::ReadDir, "closedir" => Bi::CloseDir, "lseek64" => Bi::Lseek, "statx" => Bi::Statx, "syscall" => Bi::Syscall, "mkdir" => Bi::Mkdir, "unlink" => Bi::Unlink, "dirfd" => Bi::Dirfd,
        "__cxa_thread_atexit_impl" | "pthread_key_delete" | "sched_yield" | "sigaltstack" | "sigaction" | "munmap" | "mprotect" | "fcntl" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "dl_iterate_phdr" | "_Unwind_Backtrace" => Bi::Zero,
        "readlink" => Bi::Neg1,
        "gettid" | "getpid" | "pthread_self" => Bi::One, "sysconf" => Bi::Sysconf,
        "sched_getaffinity" => Bi::Neg1,
        _ => {
            if n.contains("core9panicking9panic_fmt") || n.contains("core9panicking18panic_nounwind_fmt") { return Bi::PanicFmt; }
            if n.contains("rust_begin_unwind") || n.contains("begin_panic_handler") || n.contains("rust_panic_with_hook") || n.contains("panicking11begin_panic") || n.contains("handle_alloc_error") || n.contains("panic_nounwind") || n.contains("panic_cannot_unwind") || n.contains("core9panicking5panic17") { return Bi::PanicHandler; }
            if n.ends_with("___rust_no_alloc_shim_is_unstable") || n.ends_with("___rust_no_alloc_shim_is_unstable_v2") { return Bi::NoAllocUnstable; }
            if n.ends_with("___rust_alloc") || n == "__rust_alloc" || n.ends_with("___rdl_alloc") { return Bi::RustAlloc; }
            if n.ends_with("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" || n.ends_with("___rdl_alloc_zeroed") { return Bi::RustAllocZ; }
            if n.ends_with("___rust_realloc") || n == "__rust_realloc" || n.ends_with("___rdl_realloc") { return Bi::RustRealloc; }
            if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" || n.ends_with("___rdl_dealloc") { return Bi::RustDealloc; }
            Bi::None
        }
    }
}

impl Ex {
    pub fn new(m: Module, hard_ms: u32) -> Ex {
        let bi = m.funcs.iter().map(|f| builtin(&f.name)).collect();
        let n = m.funcs.len();
        Ex { m, fns: vec![None; n], bi, p: Pool::new(), sv: Solver::new(hard_ms), work: vec![], st: Stats::default(), out: vec![], seen_viol: HashMap::new(), abandon: false, model_ptr: std::ptr::null(), vmap: HashMap::new(), on_push: None, deadline: Instant::now(), max_steps: 2_000_000_000, trace: false, cut_panics: false, prof: None, max_samples: 4, pages0: 0, siphash: false }
    }
    pub fn init_state(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for i in 0..self.m.globals.len() {
            let (ty, init, addr) = { let g = &self.m.globals[i]; (g.ty, g.init, g.addr) };
            if let Some((s, e)) = init {
                let src = self.m.src;
                let mut l = Lx::new(&src[s..e]);
                let size = self.m.tys.size[ty as usize] as usize;
                if l.is("zeroinitializer") { continue; }
                let c = self.m.parse_const(&mut l, ty);
                let mut buf = vec![0u8; size];
                self.m.write_const(&c, ty, &mut buf);
                mem.write(addr, &buf);
            }
        }
        let fid = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no function {}", entry));
        let f = self.func(fid);
        let fr = Frame { f, base: 0, ip: 0, dst: u32::MAX, next: u32::MAX, sp: STACK };
        State { regs: vec![Val::I(0); f.nregs as usize], fr: vec![fr], mem, pc: vec![], model: Rc::new(vec![]), pins: Rc::new(HashMap::new()), sp: STACK, hp: HEAP + 4096, inputs: vec![], obs: vec![], notes: vec![], panic_ok: false, fork_loads: false, steps: 0, depth: 0, tls: HashMap::new(), fds: Rc::new(HashMap::new()), fs: Rc::new(BTreeMap::new()), forked: 0, fs_rev: false, cwd: Rc::new(b"/w".to_vec()) }
    }
    pub fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.fns[id as usize] { return f; }
        let f = Box::leak(Box::new(self.m.parse_func(id)));
        self.fns[id as usize] = Some(f);
        let n = self.m.funcs[id as usize].name.clone();
        self.st.funcs.insert(n);
        f
    }

    // ---- values ----
    #[inline(always)]
    fn get(&self, s: &State, base: u32, o: O) -> Val {
        match o { O::C(v) => Val::I(v), O::R(r) => s.regs[(base + r) as usize].clone(), O::K(k) => self.cval(&s.fr.last().unwrap().f.consts[k as usize]) }
    }
    fn cval(&self, c: &Cst) -> Val { match c { Cst::I(v) => Val::I(*v), Cst::B(b) => Val::B(Rc::new(*b)), Cst::Undef => Val::I(0), Cst::Agg(v) => Val::A(Rc::new(v.iter().map(|x| self.cval(x)).collect())) } }
    pub fn ex(&mut self, v: &Val, w: u16) -> E {
        match v { Val::I(x) => self.p.cst(w, *x as u128), Val::B(b) => self.p.cst(w, **b), Val::S(e) => { let ew = self.p.w(*e); if ew == w { *e } else if ew > w { self.p.extract(*e, 0, w) } else { self.p.zext(*e, w) } } Val::A(a) => { if a.is_empty() { self.p.cst(w, 0) } else { panic!("aggregate as scalar") } } }
    }
    fn vl(&mut self, e: E) -> Val { match self.p.as_const(e) { Some(k) => if self.p.w(e) <= 64 { Val::I(k as u64) } else { Val::B(Rc::new(k)) }, None => Val::S(e) } }
    fn big(&self, v: &Val) -> Option<u128> { match v { Val::I(x) => Some(*x as u128), Val::B(b) => Some(**b), _ => None } }
    fn mk(&self, w: u16, x: u128) -> Val { if w <= 64 { Val::I((x & mask(w)) as u64) } else { Val::B(Rc::new(x & mask(w))) } }

    pub fn meval(&mut self, s: &State, e: E) -> u128 {
        let ptr = Rc::as_ptr(&s.model);
        if ptr != self.model_ptr { self.p.new_epoch(); self.model_ptr = ptr; }
        self.p.eval(e, &s.model)
    }
    fn set_model(&mut self, s: &mut State, upd: &[(u32, u128)]) {
        let mut m = (*s.model).clone();
        for (v, x) in upd { if m.len() <= *v as usize { m.resize(*v as usize + 1, 0); } m[*v as usize] = *x; }
        s.model = Rc::new(m);
        self.model_ptr = std::ptr::null();
    }
    fn add_pc(&mut self, s: &mut State, c: E) {
        let n = self.p.n(c);
        if n.op == Op::Const { return; }
        if n.op == Op::And && n.w == 1 { self.add_pc(s, n.a); self.add_pc(s, n.b); return; }
        // substitute equalities with constants as pins
        if n.op == Op::Eq { if let Some(k) = self.p.as_const(n.b) { if k <= u64::MAX as u128 { let mut m = (*s.pins).clone(); m.insert(n.a, k as u64); s.pins = Rc::new(m); } } }
        { let mut m = (*s.pins).clone(); if n.op == Op::Xor && self.p.as_const(n.b) == Some(1) { m.insert(n.a, 0); } else { m.insert(c, 1); } s.pins = Rc::new(m); }
        if !s.pc.contains(&c) { s.pc.push(c); }
    }
    fn push_state(&mut self, st: State) {
        self.st.forks += 1;
        self.work.push(st);
        if let Some(f) = self.on_push { f(self) }
    }
    /// Decide a symbolic condition. Returns the branch the current state takes; the other feasible
    /// side (if any) is pushed through `other`.
    fn fork(&mut self, s: &mut State, c: E, other: &mut dyn FnMut(&mut Ex, &mut State)) -> Res<bool> {
        if let Some(k) = self.p.as_const(c) { return Ok(k == 1); }
        // already decided on this path?
        if s.pc.contains(&c) { return Ok(true); }
        let nc = self.p.not(c);
        if s.pc.contains(&nc) { return Ok(false); }
        let here = self.meval(s, c) == 1;
        let (mine, oth) = if here { (c, nc) } else { (nc, c) };
        let (r, m) = self.sv.check(&mut self.p, &s.pc, oth);
        match r {
            R::Unsat => {}
            R::Unknown => return err(format!("solver gave up on a branch: {}", self.p.show(oth, 5))),
            R::Sat => {
                let mut t = s.clone();
                t.depth += 1;
                self.set_model(&mut t, &m.unwrap());
                self.add_pc(&mut t, oth);
                other(self, &mut t);
                self.add_pc(s, mine);
                s.depth += 1;
                self.push_state(t);
            }
        }
        Ok(here)
    }
    /// force a value to be concrete, forking over its other feasible values (the instruction is re-executed there)
    fn conc(&mut self, s: &mut State, v: &Val, w: u16) -> Res<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::B(b) => Ok(**b as u64),
            Val::S(_) => {
                let e = self.ex(v, w);
                if let Some(k) = self.p.as_const(e) { return Ok(k as u64); }
                if let Some(k) = s.pins.get(&e) { return Ok(*k); }
                let k = self.meval(s, e);
                let kc = self.p.cst(w, k);
                let c = self.p.eq(e, kc);
                let here = self.fork(s, c, &mut |_, t| { let f = t.fr.last_mut().unwrap(); f.ip -= 1; })?;
                debug_assert!(here);
                Ok(k as u64)
            }
            Val::A(_) => err("aggregate where scalar expected"),
        }
    }

    // ---- memory ----
    fn leaves(&mut self, e: E, cond: Option<E>, out: &mut Vec<(Option<E>, u64)>, max: usize) -> bool {
        let n = self.p.n(e);
        if out.len() > max { return false; }
        match n.op {
            Op::Const => { out.push((cond, n.k as u64)); true }
            Op::Ite => {
                let nc = self.p.not(n.a);
                let (x, y) = match cond { None => (n.a, nc), Some(c) => (self.p.and(c, n.a), self.p.and(c, nc)) };
                self.leaves(n.b, Some(x), out, max) && self.leaves(n.c, Some(y), out, max)
            }
            _ => false,
        }
    }
    fn tz(&self, e: E) -> u32 {
        let n = self.p.n(e);
        match n.op {
            Op::Const => if n.k == 0 { 64 } else { n.k.trailing_zeros() },
            Op::Concat => { let b = self.p.n(n.b); if b.op == Op::Const && b.k == 0 { b.w as u32 + self.tz(n.a) } else { self.tz(n.b) } }
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Mul => self.tz(n.a) + self.tz(n.b),
            Op::Add | Op::Or => self.tz(n.a).min(self.tz(n.b)),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    fn stride(&self, e: E) -> u64 {
        // largest multiplier of the non-constant part
        let n = self.p.n(e);
        if n.op == Op::Add && self.p.as_const(n.b).is_some() { return self.stride(n.a); }
        if n.op == Op::Mul { if let Some(k) = self.p.as_const(n.b) { if k < 65536 && k > 0 { return k as u64 * (1u64 << self.tz(n.a).min(16)); } } }
        if n.op == Op::Add { let a = self.stride(n.a); let b = self.stride(n.b); return gcd(a, b); }
        1u64 << self.tz(e).min(12)
    }
    fn ld_int(&mut self, s: &State, a: u64, w: u16) -> Res<Val> {
        let n = (w as usize + 7) / 8;
        Ok(match s.mem.load(a, n) {
            Ld::C(v) => Val::I(v & mask64(w)),
            Ld::C128(v) => self.mk(w, v),
            Ld::Sym(b) => {
                let mut e = 0;
                for (v, x) in b.iter() { let x = if *x != 0 { *x } else { self.p.cst(8, *v as u128) }; e = if e == 0 { x } else { self.p.concat(x, e) }; }
                let e = if w as usize != n * 8 { self.p.extract(e, 0, w) } else { e };
                self.vl(e)
            }
            Ld::Bad => return err(format!("load from unmapped address {:#x}", a)),
        })
    }
    fn addr_candidates(&mut self, s: &mut State, e: E) -> Option<Vec<u64>> {
        let (mut lo, mut hi) = self.p.range(e);
        let st = self.stride(e).max(1);
        if hi - lo > 16384 {
            // tighten with the solver
            let v = self.meval(s, e) as u64;
            let w = self.p.w(e);
            let kv = self.p.cst(w, v as u128); let same = self.p.eq(e, kv); let other = self.p.not(same);
            if self.sv.check(&mut self.p, &s.pc, other).0 == R::Unsat { let mut m = (*s.pins).clone(); m.insert(e, v); s.pins = Rc::new(m); return Some(vec![v]); }
            let (wlo, whi) = (v.saturating_sub(8192), v.saturating_add(8192));
            let a = self.p.cst(w, wlo as u128); let b = self.p.cst(w, whi as u128);
            let c1 = self.p.ult(e, a); let c2 = self.p.ult(b, e);
            let out = self.p.or(c1, c2);
            match self.sv.check(&mut self.p, &s.pc, out).0 { R::Unsat => { lo = lo.max(wlo); hi = hi.min(whi); } _ => return None }
            // binary search both ends
            let (mut l, mut h) = (lo, v);
            while l < h { let mid = l + (h - l) / 2; let k = self.p.cst(w, mid as u128); let c = self.p.bin(Op::Ule, e, k); match self.sv.check(&mut self.p, &s.pc, c).0 { R::Sat => h = mid, R::Unsat => l = mid + 1, _ => return None } }
            lo = l;
            let (mut l, mut h) = (v, hi);
            while l < h { let mid = l + (h - l + 1) / 2; let k = self.p.cst(w, mid as u128); let c = self.p.bin(Op::Ule, k, e); match self.sv.check(&mut self.p, &s.pc, c).0 { R::Sat => l = mid, R::Unsat => h = mid - 1, _ => return None } }
            hi = l;
            // align lo with the residue class of v
            lo = v - (v - lo) / st * st;
        }
        if (hi - lo) / st > 2048 { return None; }
        let mut v = vec![]; let mut a = lo; while a <= hi { v.push(a); match a.checked_add(st) { Some(x) => a = x, None => break } }
        Some(v)
    }
    fn load(&mut self, s: &mut State, p: &Val, w: u16) -> Res<Val> {
        match p {
            Val::I(a) => self.ld_int(s, *a, w),
            Val::S(_) => {
                let e = self.ex(p, 64);
                if let Some(k) = s.pins.get(&e) { return self.ld_int(s, *k, w); }
                let mut lv = vec![];
                if s.fork_loads { let a = self.conc(s, p, 64)?; return self.ld_int(s, a, w); }
                if self.leaves(e, None, &mut lv, 64) {
                    let mut acc: Option<E> = None;
                    for (c, a) in lv.iter().rev() {
                        if !s.mem.mapped(*a) { continue; }
                        let v = self.ld_int(s, *a, w)?; let v = self.ex(&v, w);
                        acc = Some(match (acc, c) { (None, _) => v, (Some(x), Some(c)) => self.p.ite(*c, v, x), (Some(_), None) => v });
                    }
                    let acc = match acc { Some(a) => a, None => return err("load from bad address set") };
                    return Ok(self.vl(acc));
                }
                if let Some(c) = self.addr_candidates(s, e) {
                    let mut vals: Vec<(u64, E)> = vec![];
                    for a in &c { if !s.mem.mapped(*a) { continue; } let v = self.ld_int(s, *a, w)?; let v = self.ex(&v, w); vals.push((*a, v)); }
                    if !vals.is_empty() {
                        // group equal values into runs
                        let mut runs: Vec<(E, u64, u64)> = vec![];
                        for (a, v) in &vals { match runs.last_mut() { Some(r) if r.0 == *v => r.2 = *a, _ => runs.push((*v, *a, *a)) } }
                        let mut groups: Vec<(E, Vec<(u64, u64)>)> = vec![]; let mut gi: HashMap<E, usize> = HashMap::new();
                        for (v, a, b) in runs { let i = *gi.entry(v).or_insert_with(|| { groups.push((v, vec![])); groups.len() - 1 }); groups[i].1.push((a, b)); }
                        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                        let mut acc = groups[0].0;
                        for g in &groups[1..] {
                            let mut c = self.p.fls();
                            for (a, b) in &g.1 {
                                let ka = self.p.cst(64, *a as u128); let kb = self.p.cst(64, *b as u128);
                                let x = if a == b { self.p.eq(e, ka) } else { let x = self.p.bin(Op::Ule, ka, e); let y = self.p.bin(Op::Ule, e, kb); self.p.and(x, y) };
                                c = self.p.or(c, x);
                            }
                            acc = self.p.ite(c, g.0, acc);
                        }
                        return Ok(self.vl(acc));
                    }
                }
                let a = self.conc(s, p, 64)?;
                self.ld_int(s, a, w)
            }
            _ => err("load pointer"),
        }
    }
    fn store(&mut self, s: &mut State, p: &Val, v: &Val, w: u16) -> Res<()> {
        let a = match p { Val::I(a) => *a, _ => self.conc(s, p, 64)? };
        let n = (w as usize + 7) / 8;
        let ok = match v {
            Val::I(x) if w <= 64 => s.mem.store(a, n, *x),
            Val::S(_) => {
                let e = self.ex(v, w); let e = self.p.zext(e, n as u16 * 8);
                let mut ok = true;
                for i in 0..n { let b = self.p.extract(e, i as u16 * 8, 8); ok &= match self.p.as_const(b) { Some(k) => s.mem.set(a + i as u64, k as u8, 0), None => s.mem.set(a + i as u64, 0, b) }; }
                ok
            }
            _ => match self.big(v) { Some(x) => { let b = x.to_le_bytes(); let mut buf = [0u8; 16]; buf[..n.min(16)].copy_from_slice(&b[..n.min(16)]); s.mem.write(a, &buf[..n.min(16)]) } None => if let Val::A(x) = v { if x.is_empty() { true } else { return err("store agg as int") } } else { false } },
        };
        if ok { Ok(()) } else { err(format!("store to unmapped address {:#x}", a)) }
    }
    fn load_t(&mut self, s: &mut State, a: u64, ty: Ty) -> Res<Val> {
        let t = self.m.tys.v[ty as usize].clone();
        Ok(match t {
            T::Arr(n, e) => { let sz = self.m.tys.size[e as usize]; let mut v = vec![]; for i in 0..n { v.push(self.load_t(s, a + i * sz, e)?); } Val::A(Rc::new(v)) }
            T::Vec(n, e) => {
                let ew = self.m.tys.int_w(e);
                if ew % 8 != 0 { let x = self.ld_int(s, a, (n as u16 * ew + 7) / 8 * 8)?; return self.unpack(&x, n, ew); }
                let mut v = vec![]; for i in 0..n as u64 { v.push(self.ld_int(s, a + i * ew as u64 / 8, ew)?); } Val::A(Rc::new(v)) }
            T::Struct(f, _) => { let mut v = vec![]; for (i, e) in f.iter().enumerate() { let o = self.m.tys.offs[ty as usize][i]; v.push(self.load_t(s, a + o, *e)?); } Val::A(Rc::new(v)) }
            _ => { let w = self.m.tys.int_w(ty); self.ld_int(s, a, w)? }
        })
    }
    fn store_t(&mut self, s: &mut State, a: u64, v: &Val, ty: Ty) -> Res<()> {
        let t = self.m.tys.v[ty as usize].clone();
        match t {
            T::Arr(_, e) => { let sz = self.m.tys.size[e as usize]; if let Val::A(x) = v { for (i, y) in x.iter().enumerate() { self.store_t(s, a + i as u64 * sz, y, e)?; } } }
            T::Vec(n, e) => { let ew = self.m.tys.int_w(e); if ew % 8 != 0 { let x = self.pack(v, n, ew)?; return self.store(s, &Val::I(a), &x, (n as u16 * ew + 7) / 8 * 8); }
                if let Val::A(x) = v { for (i, y) in x.iter().enumerate() { self.store(s, &Val::I(a + i as u64 * ew as u64 / 8), y, ew)?; } } }
            T::Struct(f, _) => { if let Val::A(x) = v { for (i, y) in x.iter().enumerate() { let o = self.m.tys.offs[ty as usize][i]; self.store_t(s, a + o, y, f[i])?; } } }
            _ => { let w = self.m.tys.int_w(ty); self.store(s, &Val::I(a), v, w)? }
        }
        Ok(())
    }
    fn pack(&mut self, v: &Val, n: u32, ew: u16) -> Res<Val> {
        if n as u16 * ew > 128 { return err("pack > 128 bits"); }
        let a = match v { Val::A(a) => a.clone(), x => return Ok(x.clone()) };
        if a.iter().all(|x| matches!(x, Val::I(_))) {
            let mut r = 0u128; for x in a.iter().rev() { if let Val::I(k) = x { r = if ew >= 128 { 0 } else { r << ew } | (*k as u128 & mask(ew)); } }
            return Ok(self.mk(n as u16 * ew, r));
        }
        let mut e = 0; for x in a.iter() { let y = self.ex(x, ew); e = if e == 0 { y } else { self.p.concat(y, e) }; }
        Ok(self.vl(e))
    }
    fn unpack(&mut self, v: &Val, n: u32, ew: u16) -> Res<Val> {
        let mut out = vec![];
        if let Some(x) = self.big(v) { for i in 0..n { out.push(self.mk(ew, x >> (i as u16 * ew))); } }
        else { let e = self.ex(v, n as u16 * ew); for i in 0..n { let x = self.p.extract(e, i as u16 * ew, ew); out.push(self.vl(x)); } }
        Ok(Val::A(Rc::new(out)))
    }

    // ---- arithmetic ----
    #[inline(always)]
    fn bin(&mut self, op: Bin, w: u16, a: &Val, b: &Val) -> Res<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask64(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { x << y }, Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => { let s = sx(x as u128, w) as i64; (s >> y.min(63)) as u64 }
                Bin::UDiv => if y == 0 { return err("udiv by zero") } else { x / y }, Bin::URem => if y == 0 { return err("urem by zero") } else { x % y },
                Bin::SDiv => { let (p, q) = (sx(x as u128, w) as i64, sx(y as u128, w) as i64); if q == 0 { return err("sdiv by zero"); } p.wrapping_div(q) as u64 }
                Bin::SRem => { let (p, q) = (sx(x as u128, w) as i64, sx(y as u128, w) as i64); if q == 0 { return err("srem by zero"); } p.wrapping_rem(q) as u64 }
                _ => return self.fbin(op, w, x, y),
            };
            return Ok(Val::I(r & m));
        }
        self.bin_slow(op, w, a, b)
    }
    fn fbin(&self, op: Bin, w: u16, x: u64, y: u64) -> Res<Val> {
        let f = |a: f64, b: f64| match op { Bin::FAdd => a + b, Bin::FSub => a - b, Bin::FMul => a * b, Bin::FDiv => a / b, _ => a % b };
        Ok(Val::I(match w { 64 => f(f64::from_bits(x), f64::from_bits(y)).to_bits(), 32 => { let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { Bin::FAdd => a + b, Bin::FSub => a - b, Bin::FMul => a * b, Bin::FDiv => a / b, _ => a % b }).to_bits() as u64 } _ => return err("float width") }))
    }
    fn bin_slow(&mut self, op: Bin, w: u16, a: &Val, b: &Val) -> Res<Val> {
        let xop = match op { Bin::Add => Op::Add, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::URem => Op::URem, Bin::SDiv => Op::SDiv, Bin::SRem => Op::SRem, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::Sub => Op::Add, _ => return err("symbolic float") };
        if let (Some(x), Some(y)) = (self.big(a), self.big(b)) {
            let y = if op == Bin::Sub { y.wrapping_neg() & mask(w) } else { y };
            return Ok(self.mk(w, bin_const(xop, w, x, y)));
        }
        let x = self.ex(a, w); let y = self.ex(b, w);
        let e = if op == Bin::Sub { self.p.sub(x, y) } else { self.p.bin(xop, x, y) };
        Ok(self.vl(e))
    }
    #[inline(always)]
    fn cmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                _ => { let (x, y) = (sx(x as u128, w), sx(y as u128, w)); match p { Pred::Slt => x < y, Pred::Sle => x <= y, Pred::Sgt => x > y, _ => x >= y } }
            };
            return Val::I(r as u64);
        }
        let x = self.ex(a, w); let y = self.ex(b, w);
        let e = match p {
            Pred::Eq => self.p.eq(x, y), Pred::Ne => { let e = self.p.eq(x, y); self.p.not(e) }
            Pred::Ult => self.p.bin(Op::Ult, x, y), Pred::Ule => self.p.bin(Op::Ule, x, y), Pred::Ugt => self.p.bin(Op::Ult, y, x), Pred::Uge => self.p.bin(Op::Ule, y, x),
            Pred::Slt => self.p.bin(Op::Slt, x, y), Pred::Sle => self.p.bin(Op::Sle, x, y), Pred::Sgt => self.p.bin(Op::Slt, y, x), Pred::Sge => self.p.bin(Op::Sle, y, x),
        };
        self.vl(e)
    }
    fn cast(&mut self, k: CK, fw: u16, tw: u16, a: &Val) -> Res<Val> {
        match k {
            CK::FpToUi | CK::FpToSi | CK::UiToFp | CK::SiToFp | CK::FpExt | CK::FpTrunc => {
                let x = match a { Val::I(x) => *x, _ => return err("symbolic float conversion") };
                let fl = |w: u16, x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let to = |w: u16, f: f64| if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
                return Ok(Val::I(match k { CK::FpToUi => fl(fw, x) as u64 & mask64(tw), CK::FpToSi => (fl(fw, x) as i64) as u64 & mask64(tw), CK::UiToFp => if tw == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() }, CK::SiToFp => to(tw, sx(x as u128, fw) as i64 as f64), _ => to(tw, fl(fw, x)) }));
            }
            _ => {}
        }
        if let Some(x) = self.big(a) { let r = if k == CK::SExt { sx(x, fw) as u128 } else { x }; return Ok(self.mk(tw, r)); }
        let e = self.ex(a, fw);
        let r = if tw == fw { e } else if tw < fw { self.p.extract(e, 0, tw) } else if k == CK::SExt { self.p.sext(e, tw) } else { self.p.zext(e, tw) };
        Ok(self.vl(r))
    }
    fn lanes(&self, v: &Val, n: u32) -> Rc<Vec<Val>> { match v { Val::A(a) => a.clone(), x => Rc::new(vec![x.clone(); n as usize]) } }

    fn alloc(&mut self, s: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (s.hp + 16 + al - 1) / al * al;
        s.mem.store(a - 16, 8, size);
        s.hp = a + size.max(1);
        a
    }
    fn bytes(&mut self, s: &mut State, p: u64, n: u64) -> Vec<Val> { (0..n).map(|i| { let (v, e) = s.mem.byte(p + i); if e != 0 { Val::S(e) } else { Val::I(v as u64) } }).collect() }
    fn cstr(&mut self, s: &State, p: u64, n: u64) -> String { let mut v = vec![]; for i in 0..n { v.push(s.mem.byte(p + i).0) } String::from_utf8_lossy(&v).into_owned() }
    pub fn zstr(&mut self, s: &mut State, p: u64) -> Res<Vec<u8>> { let mut v = vec![]; let mut i = 0; loop { let (b, e) = s.mem.byte(p + i); let b = if e != 0 { let x = self.conc(s, &Val::S(e), 8)? as u8; x } else { b }; if b == 0 { break; } v.push(b); i += 1; if i > 4096 { return err("unterminated C string") } } Ok(v) }

    fn panic_end(&mut self, s: &State, msg: String) -> End { if s.panic_ok { End::PanicOk(msg) } else { End::Panic(msg) } }
    pub fn where_am_i(&self, s: &State) -> String { s.fr.iter().rev().take(6).map(|f| short(&self.m.funcs[f.f.id as usize].name)).collect::<Vec<_>>().join(" < ") }

    /// run a state to its end
    pub fn run(&mut self, s: &mut State) -> End {
        match self.run0(s) { Ok(e) => e, Err(End::Err(m)) => End::Err(format!("{} [in {}]", m, self.where_am_i(s))), Err(e) => e }
    }

    #[inline(always)]
    fn jump(&mut self, s: &mut State, e: u32) {
        let fr = s.fr.last_mut().unwrap();
        let f = fr.f; let ed = &f.edges[e as usize];
        let base = fr.base;
        fr.ip = f.bb[ed.to as usize];
        match ed.copies.len() {
            0 => {}
            1 => { let (d, o) = ed.copies[0]; let v = self.get(s, base, o); s.regs[(base + d) as usize] = v; }
            _ => { let vs: Vec<Val> = ed.copies.iter().map(|(_, o)| self.get(s, base, *o)).collect(); for ((d, _), v) in ed.copies.iter().zip(vs) { s.regs[(base + d) as usize] = v; } }
        }
    }
    fn do_ret(&mut self, s: &mut State, v: Option<Val>) -> bool {
        let fr = s.fr.pop().unwrap();
        s.sp = fr.sp;
        s.regs.truncate(fr.base as usize);
        if s.fr.is_empty() { return true; }
        let c = s.fr.last().unwrap();
        if fr.dst != u32::MAX { let b = c.base; s.regs[(b + fr.dst) as usize] = v.unwrap_or(Val::I(0)); }
        if fr.next != u32::MAX { self.jump(s, fr.next); }
        false
    }

    fn run0(&mut self, s: &mut State) -> Res<End> {
        let mut n = 0u64;
        loop {
            n += 1;
            if n & 0xfffff == 0 { s.steps += 0x100000; self.st.steps += 0x100000; if Instant::now() > self.deadline { return err("TIMEOUT") } if s.steps > self.max_steps { return err("step limit on one path") } }
            if self.abandon { return Ok(End::Abandon); }
            let fr = s.fr.last_mut().unwrap();
            let f = fr.f; let base = fr.base;
            let ins = &f.code[fr.ip as usize];
            fr.ip += 1;
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; s.regs[(base + *$d) as usize] = v; }} }
            match ins {
                I::Bin { op, w, d, a, b } => { let x = self.get(s, base, *a); let y = self.get(s, base, *b); let r = self.bin(*op, *w, &x, &y)?; set!(d, r) }
                I::Icmp { p, w, d, a, b } => { let x = self.get(s, base, *a); let y = self.get(s, base, *b); let r = self.cmp(*p, *w, &x, &y); set!(d, r) }
                I::Load { d, w, p } => { let a = self.get(s, base, *p); let v = match a { Val::I(a) => self.ld_int(s, a, *w)?, a => self.load(s, &a, *w)? }; set!(d, v) }
                I::Store { w, v, p } => { let a = self.get(s, base, *p); let x = self.get(s, base, *v); self.store(s, &a, &x, *w)?; }
                I::GepC { d, b, off } => { let r = match self.get(s, base, *b) { Val::I(x) => Val::I(x.wrapping_add(*off as u64)), v => { let e = self.ex(&v, 64); let k = self.p.cst(64, *off as u64 as u128); let e = self.p.bin(Op::Add, e, k); self.vl(e) } }; set!(d, r) }
                I::Gep1 { d, b, off, i, iw, sc } => {
                    let bv = self.get(s, base, *b); let iv = self.get(s, base, *i);
                    let r = match (&bv, &iv) { (Val::I(x), Val::I(i)) => { let i = if *iw == 64 { *i } else { sx(*i as u128, *iw) as u64 }; Val::I(x.wrapping_add(*off as u64).wrapping_add(i.wrapping_mul(*sc))) }
                        _ => self.gep_sym(&bv, *off, &[(iv.clone(), *iw, *sc)]) };
                    set!(d, r)
                }
                I::Gep { d, g } => { let bv = self.get(s, base, g.base); let ix: Vec<_> = g.idx.iter().map(|(o, w, sc)| (self.get(s, base, *o), *w, *sc)).collect(); let r = self.gep_sym(&bv, g.off, &ix); set!(d, r) }
                I::Br(e) => self.jump(s, *e),
                I::CBr { c, t, f: fl } => {
                    let v = self.get(s, base, *c);
                    let b = match v { Val::I(x) => x & 1 == 1, v => { let e = self.ex(&v, 1); let (t, fl) = (*t, *fl); let here = self.meval(s, e) == 1; self.fork(s, e, &mut |ex, st| ex.jump(st, if here { fl } else { t }))? } };
                    self.jump(s, if b { *t } else { *fl });
                }
                I::Switch(sw) => {
                    let v = self.get(s, base, sw.v);
                    match v {
                        Val::I(x) => { let e = sw.map.get(&x).copied().unwrap_or(sw.def); self.jump(s, e); }
                        v => {
                            let e = self.ex(&v, sw.w);
                            let k = self.meval(s, e) as u64;
                            let tgt = |x: u64| sw.map.get(&x).copied().unwrap_or(sw.def);
                            let mine = tgt(k);
                            let to = f.edges[mine as usize].to;
                            // condition of reaching the same block with the same phi inputs as edge `mine`
                            let c = if mine == sw.def {
                                let mut c = self.p.tru();
                                for (kk, _) in &sw.cases { let kc = self.p.cst(sw.w, *kk as u128); let x = self.p.eq(e, kc); let x = self.p.not(x); c = self.p.and(c, x); }
                                c
                            } else {
                                let mut c = self.p.fls();
                                for (kk, ed) in &sw.cases { if f.edges[*ed as usize].to == to { let kc = self.p.cst(sw.w, *kk as u128); let x = self.p.eq(e, kc); c = self.p.or(c, x); } }
                                c
                            };
                            self.fork(s, c, &mut |_, st| { st.fr.last_mut().unwrap().ip -= 1; })?;
                            self.jump(s, mine);
                        }
                    }
                }
                I::Cast { k, fw, tw, d, a } => {
                    let v = self.get(s, base, *a);
                    let r = match (&v, k) { (Val::I(x), CK::Trunc | CK::ZExt | CK::PtrToInt | CK::IntToPtr | CK::BitCast) if *tw <= 64 => Val::I(x & mask64(*tw)), _ => self.cast(*k, *fw, *tw, &v)? };
                    set!(d, r)
                }
                I::Sel { d, w, ptr, c, a, b } => {
                    let cv = self.get(s, base, *c);
                    let r = match cv {
                        Val::I(x) => self.get(s, base, if x & 1 == 1 { *a } else { *b }),
                        cv => {
                            let e = self.ex(&cv, 1);
                            let x = self.get(s, base, *a); let y = self.get(s, base, *b);
                            if let Some(k) = self.p.as_const(e) { if k == 1 { x } else { y } }
                            else if *ptr && !matches!((&x, &y), (Val::I(p), Val::I(q)) if p == q) {
                                let here = self.fork(s, e, &mut |_, st| { st.fr.last_mut().unwrap().ip -= 1; })?;
                                if here { x } else { y }
                            } else { let p = self.ex(&x, *w); let q = self.ex(&y, *w); let r = self.p.ite(e, p, q); self.vl(r) }
                        }
                    };
                    set!(d, r)
                }
                I::SelAgg { d, c, a, b, .. } => {
                    let cv = self.get(s, base, *c);
                    let b1 = match cv { Val::I(x) => x & 1 == 1, cv => { let e = self.ex(&cv, 1); self.fork(s, e, &mut |_, st| { st.fr.last_mut().unwrap().ip -= 1; })? } };
                    let r = self.get(s, base, if b1 { *a } else { *b }); set!(d, r)
                }
                I::Call(c) => { if let Some(e) = self.call(s, c, base)? { return Ok(e); } }
                I::Ret(o) => { let v = o.map(|o| self.get(s, base, o)); if self.do_ret(s, v) { s.steps += n & 0xfffff; self.st.steps += n & 0xfffff; return Ok(End::Done); } }
                I::LoadT { d, ty, p } => { let a = self.get(s, base, *p); let a = self.conc(s, &a, 64)?; let v = self.load_t(s, a, *ty)?; set!(d, v) }
                I::StoreT { ty, v, p } => { let a = self.get(s, base, *p); let a = self.conc(s, &a, 64)?; let v = self.get(s, base, *v); self.store_t(s, a, &v, *ty)?; }
                I::Extract { d, a, path } => { let mut v = self.get(s, base, *a); for i in path { v = match v { Val::A(x) => x[*i as usize].clone(), _ => Val::I(0) }; } set!(d, v) }
                I::Insert { d, ty, a, v, path } => { let x = self.get(s, base, *a); let y = self.get(s, base, *v); let x = match x { Val::A(_) => x, _ => { let z = self.m.zero(*ty); self.cval(&z) } }; let r = insert(x, y, path); set!(d, r) }
                I::Alloca { d, size, align, n } => { let k = self.get(s, base, *n); let k = self.conc(s, &k, 64)?; let a = (s.sp + align - 1) / align * align; s.sp = a + size * k; if s.sp > STACK + 0x4000_0000 { return err("stack overflow") } set!(d, Val::I(a)) }
                I::Copy { d, a } => { let v = self.get(s, base, *a); set!(d, v) }
                I::CmpXchg { d, w, p, a, b } => {
                    let p = self.get(s, base, *p); let p = self.conc(s, &p, 64)?; let old = self.ld_int(s, p, *w)?; let x = self.get(s, base, *a);
                    let eq = self.cmp(Pred::Eq, *w, &old, &x);
                    let eq = match eq { Val::I(k) => k == 1, v => { let e = self.ex(&v, 1); self.fork(s, e, &mut |_, st| { st.fr.last_mut().unwrap().ip -= 1; })? } };
                    if eq { let nv = self.get(s, base, *b); self.store(s, &Val::I(p), &nv, *w)?; }
                    set!(d, Val::A(Rc::new(vec![old, Val::I(eq as u64)])))
                }
                I::Rmw { op, d, w, p, v } => {
                    let p = self.get(s, base, *p); let p = self.conc(s, &p, 64)?; let old = self.ld_int(s, p, *w)?; let x = self.get(s, base, *v);
                    let nv = match op { Rmw::Xchg => x, Rmw::Add => self.bin(Bin::Add, *w, &old, &x)?, Rmw::Sub => self.bin(Bin::Sub, *w, &old, &x)?, Rmw::And => self.bin(Bin::And, *w, &old, &x)?, Rmw::Or => self.bin(Bin::Or, *w, &old, &x)?, Rmw::Xor => self.bin(Bin::Xor, *w, &old, &x)?,
                        Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => { let pr = match op { Rmw::UMax => Pred::Ugt, Rmw::UMin => Pred::Ult, Rmw::Max => Pred::Sgt, _ => Pred::Slt }; match self.cmp(pr, *w, &old, &x) { Val::I(1) => old.clone(), Val::I(_) => x, _ => return err("symbolic atomic max") } } _ => return err("atomicrmw nand") };
                    self.store(s, &Val::I(p), &nv, *w)?;
                    set!(d, old)
                }
                I::VBin { op, n, w, d, a, b } => { let x = self.get(s, base, *a); let y = self.get(s, base, *b); let (x, y) = (self.lanes(&x, *n), self.lanes(&y, *n)); let mut r = vec![]; for i in 0..*n as usize { r.push(self.bin(*op, *w, &x[i], &y[i])?); } set!(d, Val::A(Rc::new(r))) }
                I::VCmp { p, n, w, d, a, b } => { let x = self.get(s, base, *a); let y = self.get(s, base, *b); let (x, y) = (self.lanes(&x, *n), self.lanes(&y, *n)); let mut r = vec![]; for i in 0..*n as usize { r.push(self.cmp(*p, *w, &x[i], &y[i])); } set!(d, Val::A(Rc::new(r))) }
                I::VCast { k, from, to, d, a } => { let v = self.get(s, base, *a); let r = self.vcast(*k, *from, *to, &v)?; set!(d, r) }
                I::VSel { d, n, w, c, a, b } => { let cv = self.get(s, base, *c); let x = self.get(s, base, *a); let y = self.get(s, base, *b); let (cv, x, y) = (self.lanes(&cv, *n), self.lanes(&x, *n), self.lanes(&y, *n)); let mut r = vec![]; for i in 0..*n as usize { r.push(match &cv[i] { Val::I(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() }, cc => { let e = self.ex(cc, 1); let p = self.ex(&x[i], *w); let q = self.ex(&y[i], *w); let t = self.p.ite(e, p, q); self.vl(t) } }); } set!(d, Val::A(Rc::new(r))) }
                I::ExtEl { d, a, i } => { let v = self.get(s, base, *a); let i = self.get(s, base, *i); let i = self.conc(s, &i, 64)?; let r = match v { Val::A(x) => x.get(i as usize).cloned().unwrap_or(Val::I(0)), v => v }; set!(d, r) }
                I::InsEl { d, a, v, i } => { let x = self.get(s, base, *a); let v = self.get(s, base, *v); let i = self.get(s, base, *i); let i = self.conc(s, &i, 64)? as usize; let mut x = match x { Val::A(x) => (*x).clone(), _ => vec![Val::I(0); 64] }; if i < x.len() { x[i] = v; } set!(d, Val::A(Rc::new(x))) }
                I::Shuf { d, a, b, n, mask } => { let x = self.get(s, base, *a); let y = self.get(s, base, *b); let (x, y) = (self.lanes(&x, *n), self.lanes(&y, *n)); let r = mask.iter().map(|i| if *i < 0 { Val::I(0) } else if (*i as u32) < *n { x[*i as usize].clone() } else { y[*i as usize - *n as usize].clone() }).collect(); set!(d, Val::A(Rc::new(r))) }
                I::FCmp { p, w, d, a, b } => {
                    let (x, y) = match (self.get(s, base, *a), self.get(s, base, *b)) { (Val::I(x), Val::I(y)) => (x, y), _ => return err("symbolic float compare") };
                    let (x, y) = if *w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() { "oeq" => x == y, "one" => !un && x != y, "olt" => x < y, "ole" => x <= y, "ogt" => x > y, "oge" => x >= y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "une" => x != y, "ult" => un || x < y, "ule" => un || x <= y, "ugt" => un || x > y, "uge" => un || x >= y, "true" => true, _ => false };
                    set!(d, Val::I(r as u64))
                }
                I::Unreachable => return err("reached unreachable"),
                I::Unsup(x) => return err(format!("unsupported instruction {}", x)),
            }
        }
    }
    fn gep_sym(&mut self, b: &Val, off: i64, ix: &[(Val, u16, u64)]) -> Val {
        let mut c = off as u64; let mut e: Option<E> = None;
        match b { Val::I(x) => c = c.wrapping_add(*x), v => e = Some(self.ex(v, 64)) }
        for (v, w, sc) in ix {
            match v {
                Val::I(i) => { let i = sx(*i as u128, *w) as u64; c = c.wrapping_add(i.wrapping_mul(*sc)) }
                v => { let x = self.ex(v, *w); let x = if *w == 64 { x } else { self.p.sext(x, 64) }; let k = self.p.cst(64, *sc as u128); let x = self.p.bin(Op::Mul, x, k); e = Some(match e { None => x, Some(y) => self.p.bin(Op::Add, y, x) }); }
            }
        }
        match e { None => Val::I(c), Some(e) => { let k = self.p.cst(64, c as u128); let e = self.p.bin(Op::Add, e, k); self.vl(e) } }
    }
    fn vcast(&mut self, k: CK, from: Ty, to: Ty, v: &Val) -> Res<Val> {
        let ft = self.m.tys.v[from as usize].clone(); let tt = self.m.tys.v[to as usize].clone();
        match (ft, tt) {
            (T::Vec(n, a), T::Vec(n2, b)) => {
                let (aw, bw) = (self.m.tys.int_w(a), self.m.tys.int_w(b));
                if k == CK::BitCast && n != n2 {
                    if n as u16 * aw > 128 { return err("wide vector bitcast"); }
                    let x = self.pack(v, n, aw)?; return self.unpack(&x, n2, bw);
                }
                let x = self.lanes(v, n); let mut r = vec![]; for i in 0..n as usize { r.push(self.cast(k, aw, bw, &x[i])?); } Ok(Val::A(Rc::new(r)))
            }
            (T::Vec(n, a), _) => { let aw = self.m.tys.int_w(a); self.pack(v, n, aw) }
            (_, T::Vec(n, b)) => { let bw = self.m.tys.int_w(b); self.unpack(v, n, bw) }
            x => err(format!("vcast {:?}", x)),
        }
    }

    fn call(&mut self, s: &mut State, c: &CallI, base: u32) -> Res<Option<End>> {
        let fid = match &c.callee {
            Callee::F(id) => *id,
            Callee::Ind(o) => {
                let v = self.get(s, base, *o); let a = self.conc(s, &v, 64)?;
                if a < FBASE || (a - FBASE) % 16 != 0 || (a - FBASE) / 16 >= self.m.funcs.len() as u64 { return err(format!("indirect call to {:#x}", a)); }
                ((a - FBASE) / 16) as u32
            }
            Callee::Asm(t) => {
                let r = if t.contains("cpuid") || t.contains("xgetbv") { Val::A(Rc::new(vec![Val::I(0); 8])) } else if t.is_empty() || t.contains("nop") || t.contains("ud2") { c.args.first().map(|a| self.get(s, base, a.0)).unwrap_or(Val::I(0)) } else { return err(format!("inline asm {:?}", t)) };
                if let Some(d) = c.dst { s.regs[(base + d) as usize] = r; }
                return Ok(None);
            }
            Callee::Intr(n) => {
                let args: Vec<Val> = c.args.iter().map(|a| self.get(s, base, a.0)).collect();
                let r = self.intrinsic(s, n, &args, c)?;
                if let Some(d) = c.dst { s.regs[(base + d) as usize] = r; }
                return Ok(None);
            }
        };
        let b = self.bi[fid as usize];
        if b != Bi::None {
            let args: Vec<Val> = c.args.iter().map(|a| self.get(s, base, a.0)).collect();
            let r = self.builtin_call(s, b, &args, c, fid)?;
            if let Some(d) = c.dst { s.regs[(base + d) as usize] = r; }
            if c.next != u32::MAX { self.jump(s, c.next); }
            return Ok(None);
        }
        if self.m.funcs[fid as usize].text.is_none() {
            // indirect calls to libc functions reach here through weak references
            return err(format!("call to unmodelled external function {}", self.m.funcs[fid as usize].name));
        }
        let f = self.func(fid);
        if self.trace { eprintln!("{}call {}", " ".repeat(s.fr.len()), short(&self.m.funcs[fid as usize].name)); }
        if let Some(p) = &mut self.prof { *p.entry(fid).or_insert(0) += 1; }
        let nb = s.regs.len() as u32;
        if s.fr.len() > 60000 { return err("call depth"); }
        s.regs.resize((nb + f.nregs) as usize, Val::I(0));
        for (i, p) in f.params.iter().enumerate() { if let Some(a) = c.args.get(i) { let v = self.get(s, base, a.0); s.regs[(nb + p) as usize] = v; } }
        s.fr.push(Frame { f, base: nb, ip: 0, dst: c.dst.unwrap_or(u32::MAX), next: c.next, sp: s.sp });
        Ok(None)
    }

    fn intrinsic(&mut self, s: &mut State, n: &str, a: &[Val], c: &CallI) -> Res<Val> {
        let n = &n[5..];
        // vector forms: lane-wise
        if let T::Vec(k, et) = self.m.tys.v[c.rty as usize].clone() {
            if ["umin", "umax", "smin", "smax", "usub.sat", "uadd.sat", "ctpop", "bswap", "abs", "fshl", "fshr", "ctlz", "cttz", "bitreverse", "ssub.sat", "sadd.sat"].iter().any(|p| n.starts_with(p)) {
                let mut r = vec![];
                let mut c2 = c.clone(); c2.rty = et; c2.dst = None;
                let base = n.split(".v").next().unwrap().to_string();
                let name = format!("llvm.{}", base);
                for i in 0..k as usize { let la: Vec<Val> = a.iter().map(|x| match x { Val::A(v) => v[i].clone(), y => y.clone() }).collect(); let mut c3 = c2.clone(); for x in c3.args.iter_mut() { if let T::Vec(_, e) = self.m.tys.v[x.1 as usize] { x.1 = e } } r.push(self.intrinsic(s, &name, &la, &c3)?); }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        let head = n.split('.').next().unwrap();
        let aw = |ex: &Ex, i: usize| ex.m.tys.int_w(c.args[i].1);
        Ok(match head {
            "memcpy" | "memmove" => { let k = self.conc(s, &a[2], 64)?; let d = self.conc(s, &a[0], 64)?; let sr = self.conc(s, &a[1], 64)?; if k > 1 << 28 { return err("huge memcpy") } if !s.mem.copy(d, sr, k) { return err(format!("memcpy {:#x} <- {:#x} len {}", d, sr, k)); } Val::I(0) }
            "memset" => { let k = self.conc(s, &a[2], 64)?; let d = self.conc(s, &a[0], 64)?; match &a[1] { Val::I(b) => { if k > 1 << 28 { return err("huge memset") } if !s.mem.fill(d, *b as u8, k) { return err("memset"); } } v => { let e = self.ex(v, 8); for i in 0..k { s.mem.set(d + i, 0, e); } } } Val::I(0) }
            "assume" | "lifetime" | "dbg" | "invariant" | "prefetch" | "experimental" | "donothing" | "va_start" | "va_end" => Val::I(0),
            "expect" => a[0].clone(),
            "is" => Val::I(0),
            "objectsize" => Val::I(u64::MAX),
            "trap" | "ubsantrap" | "debugtrap" => return Err(self.panic_end(s, "abort (trap)".into())),
            "threadlocal" | "ptrmask" if head == "threadlocal" => a[0].clone(),
            "ptrmask" => self.bin(Bin::And, 64, &a[0], &a[1])?,
            "load" => { // load.relative
                let p = self.bin(Bin::Add, 64, &a[0], &a[1])?; let v = self.load(s, &p, 32)?; let v = self.cast(CK::SExt, 32, 64, &v)?; self.bin(Bin::Add, 64, &a[0], &v)? }
            "stacksave" => Val::I(s.sp), "stackrestore" => { if let Val::I(x) = a[0] { s.sp = x } Val::I(0) }
            "x86" if n.contains("pause") => Val::I(0),
            "x86" if n.contains("pmovmskb") => { let l = self.lanes(&a[0], 16); let mut bits = vec![]; for x in l.iter() { let b = self.bin(Bin::LShr, 8, x, &Val::I(7))?; let b = self.cast(CK::Trunc, 8, 1, &b)?; bits.push(b); } let p = self.pack(&Val::A(Rc::new(bits)), 16, 1)?; self.cast(CK::ZExt, 16, 32, &p)? }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if n.contains("with.overflow") => {
                let w = aw(self, 0);
                let (r, o) = self.ovf(head, w, &a[0], &a[1])?;
                Val::A(Rc::new(vec![r, o]))
            }
            "uadd" | "usub" | "sadd" | "ssub" => { // saturating
                let w = aw(self, 0);
                let (r, o) = self.ovf(head, w, &a[0], &a[1])?;
                let lim = match head { "uadd" => self.mk(w, mask(w)), "usub" => Val::I(0), _ => { let neg = self.cmp(Pred::Slt, w, &a[0], &Val::I(0)); let mn = self.mk(w, 1u128 << (w - 1)); let mx = self.mk(w, mask(w - 1)); self.select(&neg, &mn, &mx, w) } };
                self.select(&o, &lim, &r, w)
            }
            "umin" | "umax" | "smin" | "smax" => { let w = aw(self, 0); let p = match head { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt }; let cc = self.cmp(p, w, &a[0], &a[1]); self.select(&cc, &a[0], &a[1], w) }
            "ucmp" | "scmp" => { let w = aw(self, 0); let rw = self.m.tys.int_w(c.rty); let (p, q) = if head == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) }; let lt = self.cmp(p, w, &a[0], &a[1]); let gt = self.cmp(q, w, &a[0], &a[1]); let m1 = self.mk(rw, mask(rw)); let t = self.select(&gt, &Val::I(1), &Val::I(0), rw); self.select(&lt, &m1, &t, rw) }
            "abs" => { let w = aw(self, 0); let z = self.mk(w, 0); let ng = self.bin(Bin::Sub, w, &z, &a[0])?; let cc = self.cmp(Pred::Slt, w, &a[0], &z); self.select(&cc, &ng, &a[0], w) }
            "ctpop" => { let w = aw(self, 0); match self.big(&a[0]) { Some(x) => self.mk(w, x.count_ones() as u128), None => { let e = self.ex(&a[0], w); let mut acc = self.p.cst(w, 0); for i in 0..w { let b = self.p.extract(e, i, 1); let b = self.p.zext(b, w); acc = self.p.bin(Op::Add, acc, b); } self.vl(acc) } } }
            "ctlz" | "cttz" => { let w = aw(self, 0); match self.big(&a[0]) { Some(x) => { let x = x & mask(w); self.mk(w, if x == 0 { w as u128 } else if head == "ctlz" { (x.leading_zeros() - (128 - w as u32)) as u128 } else { x.trailing_zeros() as u128 }) } None => { let e = self.ex(&a[0], w); let mut acc = self.p.cst(w, w as u128); for i in 0..w { let (bit, val) = if head == "ctlz" { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) }; let b = self.p.extract(e, bit, 1); let k = self.p.cst(w, val as u128); acc = self.p.ite(b, k, acc); } self.vl(acc) } } }
            "bswap" => { let w = aw(self, 0); match self.big(&a[0]) { Some(x) => self.mk(w, x.swap_bytes() >> (128 - w)), None => { let e = self.ex(&a[0], w); let mut r = 0; for i in 0..w / 8 { let b = self.p.extract(e, i * 8, 8); r = if r == 0 { b } else { self.p.concat(r, b) }; } self.vl(r) } } }
            "bitreverse" => { let w = aw(self, 0); match self.big(&a[0]) { Some(x) => self.mk(w, x.reverse_bits() >> (128 - w)), None => { let e = self.ex(&a[0], w); let mut r = 0; for i in 0..w { let b = self.p.extract(e, i, 1); r = if r == 0 { b } else { self.p.concat(r, b) }; } self.vl(r) } } }
            "fshl" | "fshr" => {
                let w = aw(self, 0);
                let sh = self.conc(s, &a[2], w)? % w as u64;
                let sh = if head == "fshl" { sh } else { (w as u64 - sh) % w as u64 };
                if sh == 0 { if head == "fshl" { a[0].clone() } else { a[1].clone() } } else {
                    let x = self.bin(Bin::Shl, w, &a[0], &Val::I(sh))?; let y = self.bin(Bin::LShr, w, &a[1], &Val::I(w as u64 - sh))?; self.bin(Bin::Or, w, &x, &y)? }
            }
            "vector" if n.starts_with("vector.reduce") => {
                let (k, e) = match self.m.tys.v[c.args.last().unwrap().1 as usize] { T::Vec(k, e) => (k, e), _ => return err("reduce") };
                let w = self.m.tys.int_w(e); let l = self.lanes(a.last().unwrap(), k); let op = n.split('.').nth(2).unwrap();
                let mut acc = l[0].clone();
                for x in &l[1..] { acc = match op { "or" => self.bin(Bin::Or, w, &acc, x)?, "and" => self.bin(Bin::And, w, &acc, x)?, "xor" => self.bin(Bin::Xor, w, &acc, x)?, "add" => self.bin(Bin::Add, w, &acc, x)?, "mul" => self.bin(Bin::Mul, w, &acc, x)?,
                    "umax" | "umin" | "smax" | "smin" => { let p = match op { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt }; let cc = self.cmp(p, w, &acc, x); self.select(&cc, &acc, x, w) } _ => return err(format!("reduce {}", op)) }; }
                acc
            }
            "floor" | "ceil" | "trunc" | "sqrt" | "fabs" | "round" | "rint" => { let w = aw(self, 0); match a[0] { Val::I(x) if w == 64 => { let f = f64::from_bits(x); Val::I((match head { "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), "sqrt" => f.sqrt(), "fabs" => f.abs(), _ => f.round() }).to_bits()) } Val::I(x) => { let f = f32::from_bits(x as u32); Val::I((match head { "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), "sqrt" => f.sqrt(), "fabs" => f.abs(), _ => f.round() }).to_bits() as u64) } _ => return err("sym float") } }
            "fptoui" | "fptosi" => { let w = aw(self, 0); let rw = self.m.tys.int_w(c.rty); match a[0] { Val::I(x) => { let f = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) }; Val::I(if head == "fptoui" { (f as u64).min(mask64(rw)) } else { (f as i64) as u64 & mask64(rw) }) } _ => return err("sym float") } }
            x => return err(format!("intrinsic llvm.{} ({})", n, x)),
        })
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val, w: u16) -> Val {
        match c { Val::I(x) => if x & 1 == 1 { a.clone() } else { b.clone() }, c => { let e = self.ex(c, 1); let x = self.ex(a, w); let y = self.ex(b, w); let r = self.p.ite(e, x, y); self.vl(r) } }
    }
    fn ovf(&mut self, h: &str, w: u16, a: &Val, b: &Val) -> Res<(Val, Val)> {
        let op = match &h[1..] { "add" => Bin::Add, "sub" => Bin::Sub, _ => Bin::Mul };
        let sg = h.starts_with('s');
        if let (Some(x), Some(y)) = (self.big(a), self.big(b)) {
            if w <= 64 {
                let (r, o) = if sg { let (x, y) = (sx(x, w), sx(y, w)); let r = match op { Bin::Add => x + y, Bin::Sub => x - y, _ => x * y }; (r as u128 & mask(w), sx(r as u128 & mask(w), w) != r) }
                    else { match op { Bin::Add => { let r = x + y; (r & mask(w), r > mask(w)) } Bin::Sub => (x.wrapping_sub(y) & mask(w), x < y), _ => { let r = x * y; (r & mask(w), r > mask(w)) } } };
                return Ok((self.mk(w, r), Val::I(o as u64)));
            }
            let (r, o) = if sg { let (x, y) = (x as i128, y as i128); let (r, o) = match op { Bin::Add => x.overflowing_add(y), Bin::Sub => x.overflowing_sub(y), _ => x.overflowing_mul(y) }; (r as u128, o) } else { match op { Bin::Add => x.overflowing_add(y), Bin::Sub => x.overflowing_sub(y), _ => x.overflowing_mul(y) } };
            return Ok((self.mk(w, r), Val::I(o as u64)));
        }
        let r = self.bin(op, w, a, b)?;
        let x = self.ex(a, w); let y = self.ex(b, w);
        let o = if !sg { match op {
            Bin::Add => { let re = self.ex(&r, w); if w <= 64 { let (_, ah) = self.p.range(x); let (_, bh) = self.p.range(y); if ah as u128 + bh as u128 <= mask(w) { return Ok((r, Val::I(0))); } } if let Some(k) = self.p.as_const(y) { let lim = self.p.cst(w, mask(w) - k); self.p.ult(lim, x) } else { self.p.ult(re, x) } }
            Bin::Sub => self.p.ult(x, y),
            _ => {
                if w <= 64 { let (_, ah) = self.p.range(x); let (_, bh) = self.p.range(y); if ah as u128 * bh as u128 <= mask(w) { return Ok((r, Val::I(0))); }
                    let (x, y) = if self.p.as_const(x).is_some() { (y, x) } else { (x, y) };
                    if let Some(k) = self.p.as_const(y) { if k == 0 { return Ok((r, Val::I(0))); } let lim = self.p.cst(w, mask(w) / k); self.p.ult(lim, x) }
                    else { let xx = self.p.zext(x, 2 * w); let yy = self.p.zext(y, 2 * w); let m = self.p.bin(Op::Mul, xx, yy); let hi = self.p.extract(m, w, w); let z = self.p.cst(w, 0); let e = self.p.eq(hi, z); self.p.not(e) } }
                else { return err("u128 symbolic mul overflow") }
            } } }
        else {
            if w >= 128 { return err("i128 symbolic overflow"); }
            let xx = self.p.sext(x, w + 1); let yy = self.p.sext(y, w + 1);
            match op { Bin::Mul => { if w > 64 { return err("smul wide") } let xx = self.p.sext(x, 2 * w); let yy = self.p.sext(y, 2 * w); let m = self.p.bin(Op::Mul, xx, yy); let t = self.p.extract(m, 0, w); let t = self.p.sext(t, 2 * w); let e = self.p.eq(t, m); self.p.not(e) }
                _ => { let m = if op == Bin::Add { self.p.bin(Op::Add, xx, yy) } else { self.p.sub(xx, yy) }; let t = self.p.extract(m, 0, w); let t = self.p.sext(t, w + 1); let e = self.p.eq(t, m); self.p.not(e) } }
        };
        let o = self.vl(o);
        Ok((r, o))
    }

    fn builtin_call(&mut self, s: &mut State, b: Bi, a: &[Val], c: &CallI, fid: u32) -> Res<Val> {
        let _ = fid;
        macro_rules! cc { ($i:expr) => {{ let v = a[$i].clone(); match v { Val::I(x) => x, v => { let w = self.m.tys.int_w(c.args[$i].1); self.conc(s, &v, w)? } } }} }
        Ok(match b {
            Bi::Malloc => { let n = cc!(0); Val::I(self.alloc(s, n, 16)) }
            Bi::Calloc => { let n = cc!(0); let m = cc!(1); Val::I(self.alloc(s, n * m, 16)) }
            Bi::RustAlloc | Bi::RustAllocZ => { let n = cc!(0); let al = cc!(1); if n > 1 << 30 { return err("huge allocation") } Val::I(self.alloc(s, n, al)) }
            Bi::RustRealloc => { let p = cc!(0); let old = cc!(1); let al = cc!(2); let n = cc!(3); self.realloc(s, p, old, al, n) }
            Bi::Realloc => { let p = cc!(0); let n = cc!(1); let old = if p == 0 { 0 } else { match s.mem.load(p - 16, 8) { Ld::C(v) => v, _ => 0 } }; self.realloc(s, p, old, 16, n) }
            Bi::Free | Bi::RustDealloc | Bi::NoAllocUnstable => Val::I(0),
            Bi::PosixMemalign => { let pp = cc!(0); let al = cc!(1); let n = cc!(2); let p = self.alloc(s, n, al); s.mem.store(pp, 8, p); Val::I(0) }
            Bi::Memcpy => { let d = cc!(0); let sr = cc!(1); let n = cc!(2); if !s.mem.copy(d, sr, n) { return err("memcpy") } Val::I(d) }
            Bi::Memset => { let d = cc!(0); let v = cc!(1); let n = cc!(2); if !s.mem.fill(d, v as u8, n) { return err("memset") } Val::I(d) }
            Bi::Memcmp => {
                let n = cc!(2); let p = cc!(0); let q = cc!(1);
                let bcmp = self.m.funcs[fid as usize].name == "bcmp";
                let mut acc: Option<E> = None; let mut conc = 0i64; let mut sym = vec![];
                for i in 0..n { let x = s.mem.byte(p + i); let y = s.mem.byte(q + i); if x.1 == 0 && y.1 == 0 { if x.0 != y.0 { conc = if x.0 < y.0 { -1 } else { 1 }; if sym.is_empty() { return Ok(Val::I(conc as u32 as u64)); } sym.push((x, y)); break; } } else if x.1 != y.1 || x.1 == 0 { sym.push((x, y)); } }
                let _ = conc;
                if sym.is_empty() { return Ok(Val::I(0)); }
                let ve = |ex: &mut Ex, b: (u8, E)| if b.1 != 0 { b.1 } else { ex.p.cst(8, b.0 as u128) };
                for (x, y) in sym.into_iter().rev() {
                    let x = ve(self, x); let y = ve(self, y);
                    let eq = self.p.eq(x, y);
                    let one = self.p.cst(32, 1); let m1 = self.p.cst(32, 0xffff_ffff); let z = self.p.cst(32, 0);
                    let ne = if bcmp { one } else { let l = self.p.ult(x, y); self.p.ite(l, m1, one) };
                    let rest = acc.unwrap_or(z);
                    acc = Some(self.p.ite(eq, rest, ne));
                }
                self.vl(acc.unwrap())
            }
            Bi::Strlen => { let p = cc!(0); let v = self.zstr(s, p)?; Val::I(v.len() as u64) }
            Bi::Memchr => { let p = cc!(0); let ch = cc!(1); let n = cc!(2); let mut r = 0; for i in 0..n { let (v, e) = s.mem.byte(p + i); if e != 0 { let v = self.conc(s, &Val::S(e), 8)?; if v == ch & 0xff { r = p + i; break; } } else if v as u64 == ch & 0xff { r = p + i; break; } } Val::I(r) }
            Bi::SVar => {
                let p = cc!(0); let n = cc!(1); let w = cc!(2) as u16;
                let name = self.cstr(s, p, n);
                let k = (s.inputs.len(), name.clone(), w);
                let e = match self.vmap.get(&k) { Some(e) => *e, None => { let e = self.p.var(&name, w); self.vmap.insert(k, e); e } };
                let id = self.p.n(e).k as u32;
                s.inputs.push((name.into(), id, w));
                // development aid: the first inputs are fixed
                if let Ok(f) = std::env::var("SYMEX_FIX") { if let Some(k) = f.split_whitespace().nth(s.inputs.len() - 1) { let k: u128 = k.parse().unwrap(); self.set_model(s, &[(id, k)]); let kc = self.p.cst(w, k); let c = self.p.eq(e, kc); self.add_pc(s, c); return Ok(Val::I(k as u64)); } }
                let z = self.p.zext(e, 64);
                self.vl(z)
            }
            Bi::FVar => {
                let p = cc!(0); let n = cc!(1);
                let name = self.cstr(s, p, n);
                let k = (s.inputs.len(), name.clone(), 0xf31);
                let e = match self.vmap.get(&k) { Some(e) => *e, None => { let e = self.p.fvar(&name); self.vmap.insert(k, e); e } };
                let id = self.p.n(e).k as u32;
                s.inputs.push((name.into(), id, 32));
                self.vl(e)
            }
            Bi::FAdd | Bi::FSub | Bi::FMul | Bi::FInv => {
                let x = self.ex(&a[0].clone(), 32); let y = if b == Bi::FInv { x } else { self.ex(&a[1].clone(), 32) };
                if !(self.p.is_felt(x) && self.p.is_felt(y)) { return err(format!("field arithmetic on a value that may not be canonical: {} {}", self.p.show(x, 4), self.p.show(y, 4))) }
                let (x, y) = if s.pins.is_empty() { (x, y) } else { (self.p.fpin(x, &s.pins), self.p.fpin(y, &s.pins)) };
                let r = match b { Bi::FAdd => self.p.fadd(x, y), Bi::FSub => { let y = self.p.fneg(y); self.p.fadd(x, y) } Bi::FMul => self.p.fmul(x, y), _ => self.p.finv(x) };
                self.p.monoset(r);
                self.vl(r)
            }
            Bi::SAssume => {
                let v = a[0].clone();
                let w = self.m.tys.int_w(c.args[0].1);
                let z = self.mk(w, 0);
                let cv = self.cmp(Pred::Ne, w, &v, &z);
                match cv { Val::I(1) => Val::I(0), Val::I(_) => return Err(End::Pruned),
                    cv => { let e = self.ex(&cv, 1);
                        if self.meval(s, e) != 1 { let (r, m) = self.sv.check(&mut self.p, &s.pc, e); match r { R::Sat => { self.set_model(s, &m.unwrap()); } R::Unsat => return Err(End::Pruned), R::Unknown => return err("solver gave up on an assumption") } }
                        self.add_pc(s, e); Val::I(0) } }
            }
            Bi::SAssert => {
                let p = cc!(1); let n = cc!(2);
                let msg = self.cstr(s, p, n);
                self.st.asserts += 1;
                let w = self.m.tys.int_w(c.args[0].1);
                let z = self.mk(w, 0);
                let cv = self.cmp(Pred::Ne, w, &a[0], &z);
                match cv { Val::I(1) => {} Val::I(_) => return Err(End::Violation(msg)),
                    cv => {
                        self.st.asserts_sym += 1;
                        let e = self.ex(&cv, 1);
                        let ne = self.p.not(e);
                        let bad = if self.meval(s, e) != 1 { Some(None) } else { let (r, m) = self.sv.check(&mut self.p, &s.pc, ne); match r { R::Unsat => None, R::Sat => Some(m), R::Unknown => return err(format!("solver gave up on assertion '{}'", msg)) } };
                        if let Some(m) = bad {
                            let mut t = s.clone();
                            if let Some(m) = m { self.set_model(&mut t, &m); }
                            self.report(&t, "violation", &msg);
                            // continue on the side where the assertion holds
                            let (r, m) = self.sv.check(&mut self.p, &s.pc, e);
                            match r { R::Sat => { self.set_model(s, &m.unwrap()); } _ => return Err(End::Pruned) }
                        }
                        self.add_pc(s, e);
                    } }
                Val::I(0)
            }
            Bi::SReach => { let p = cc!(0); let n = cc!(1); let m = self.cstr(s, p, n); *self.st.reach.entry(m).or_insert(0) += 1; Val::I(0) }
            Bi::SObserve => { s.obs.push(a[0].clone()); Val::I(0) }
            Bi::SNote => { let p = cc!(0); let n = cc!(1); let v = self.bytes(s, p, n.min(4000)); s.notes.push((p, n, v)); Val::I(0) }
            Bi::SForkLoads => { s.fork_loads = cc!(0) & 0xff != 0; Val::I(0) }
            Bi::SPanicOk => { s.panic_ok = cc!(0) & 0xff != 0; Val::I(0) }
            Bi::SIs => Val::I(1),
            Bi::STier => Val::I(std::env::var("VERIF_TIER").map_or(0, |t| (t == "thorough") as u64)),
            Bi::SConc => { let v = cc!(0); Val::I(v) }
            Bi::PanicFmt => {
                let msg = self.panic_msg(s, a);
                return Err(self.panic_end(s, msg));
            }
            Bi::PanicHandler => { let m = format!("panic in {}", self.where_am_i(s)); return Err(self.panic_end(s, m)); }
            Bi::Abort | Bi::Exit => { let m = format!("abort/exit in {}", self.where_am_i(s)); return Err(self.panic_end(s, m)); }
            Bi::Zero | Bi::Getenv => Val::I(0),
            Bi::One => Val::I(1),
            Bi::Neg1 => Val::I(u64::MAX & mask64(self.m.tys.int_w(c.rty).max(32))),
            Bi::Sysconf => { let n = cc!(0); Val::I(if n == 30 { 4096 } else { 1 }) },
            Bi::Getrandom => { let p = cc!(0); let n = cc!(1); s.mem.fill(p, 0x5a, n); Val::I(n) }
            Bi::Syscall => Val::I(u64::MAX & mask64(self.m.tys.int_w(c.rty))),
            Bi::KeyCreate => { let p = cc!(0); let k = s.tls.len() as u64 + 1; s.tls.insert(k, 0); s.mem.store(p, 4, k); Val::I(0) }
            Bi::GetSpec => { let k = cc!(0); Val::I(s.tls.get(&k).copied().unwrap_or(0)) }
            Bi::SetSpec => { let k = cc!(0); let v = cc!(1); s.tls.insert(k, v); Val::I(0) }
            Bi::Errno => Val::I(HEAP + 64),
            Bi::Clock => { let p = cc!(1); s.mem.store(p, 8, 1000); s.mem.store(p + 8, 8, 0); Val::I(0) }
                        Bi::Cwd => { let p = cc!(0); let mut d = s.cwd.to_vec(); d.push(0); s.mem.write(p, &d); Val::I(p) }
            _ => return crate::fsmodel::fscall(self, s, &format!("{:?}", b), a, c, fid).map(|v| match v { Val::I(x) if self.m.tys.is_scalar(c.rty) => Val::I(x & mask64(self.m.tys.int_w(c.rty))), v => v }),
        })
    }
    pub fn arg(&mut self, s: &mut State, a: &[Val], i: usize) -> Res<u64> { let v = a[i].clone(); self.conc(s, &v, 64) }
    pub fn path_arg(&mut self, s: &mut State, p: u64) -> Res<Vec<u8>> { let v = self.zstr(s, p)?; Ok(if v.is_empty() || v[0] == b'/' { v } else { let mut d = s.cwd.to_vec(); d.push(b'/'); d.extend(v); d }) }
    pub fn halloc(&mut self, s: &mut State, n: u64) -> u64 { self.alloc(s, n, 16) }
    pub fn fname(&self, fid: u32) -> &str { &self.m.funcs[fid as usize].name }
    pub fn conc_bytes(&mut self, s: &mut State, p: u64, n: u64) -> Res<Vec<u8>> { let mut v = vec![]; for i in 0..n { let (b, e) = s.mem.byte(p + i); v.push(if e != 0 { self.conc(s, &Val::S(e), 8)? as u8 } else { b }); } Ok(v) }
    fn realloc(&mut self, s: &mut State, p: u64, old: u64, al: u64, n: u64) -> Val { let q = self.alloc(s, n, al); s.mem.copy(q, p, old.min(n)); Val::I(q) }
    fn panic_msg(&mut self, s: &State, a: &[Val]) -> String {
        let g = |ex: &Ex, p: u64| -> u64 { match s.mem.load(p, 8) { Ld::C(v) => v, _ => { let _ = ex; 0 } } };
        let mut msg = String::from("panic");
        if let Some(Val::I(p)) = a.first() {
            let pieces = g(self, *p); let n = g(self, *p + 8);
            if n > 0 && n < 20 { let mut t = vec![]; for i in 0..n { let q = g(self, pieces + i * 16); let l = g(self, pieces + i * 16 + 8); if l < 300 { t.push(self.cstr(s, q, l)); } } msg = format!("panic: {}", t.join("_")); }
        }
        if let Some(Val::I(l)) = a.last() { if a.len() > 1 { let f = g(self, *l); let n = g(self, *l + 8); let ln = g(self, *l + 16) as u32; if n > 0 && n < 300 { msg = format!("{} at {}:{}", msg, self.cstr(s, f, n), ln); } } }
        format!("{} [{}]", msg, self.where_am_i(s))
    }

    pub fn inputs_json(&mut self, s: &State) -> String {
        let v: Vec<String> = s.inputs.iter().map(|(n, id, w)| format!("[{},{},\"{}\"]", js(n), w, s.model.get(*id as usize).copied().unwrap_or(0) & mask(*w))).collect();
        format!("[{}]", v.join(","))
    }
    pub fn notes_json(&mut self, s: &State) -> String {
        let mut out = vec![];
        for (_, _, v) in s.notes.clone() { let b: Vec<u8> = v.iter().map(|x| match x { Val::I(k) => *k as u8, Val::S(e) => self.meval(s, *e) as u8, _ => b'?' }).collect(); out.push(js(&String::from_utf8_lossy(&b))); }
        format!("[{}]", out.join(","))
    }
    pub fn report(&mut self, s: &State, kind: &str, msg: &str) {
        let k = self.seen_viol.entry(format!("{}{}", kind, msg)).or_insert(0);
        *k += 1;
        if *k > 6 { return; }
        let inp = self.inputs_json(s); let notes = self.notes_json(s);
        self.out.push(format!("{{\"kind\":\"{}\",\"msg\":{},\"inputs\":{},\"notes\":{}}}", kind, js(msg), inp, notes));
    }
    pub fn finish(&mut self, s: &State, e: End) {
        self.st.paths += 1;
        match e {
            End::Done => { self.st.done += 1;
                if self.st.samples < self.max_samples || (self.st.done & (self.st.done - 1)) == 0 && self.st.samples < 3 * self.max_samples { self.st.samples += 1; let inp = self.inputs_json(s); let notes = self.notes_json(s); let obs: Vec<String> = s.obs.clone().iter().map(|v| { let e = self.ex(v, 64); format!("\"{}\"", self.meval(s, e)) }).collect(); self.out.push(format!("{{\"kind\":\"sample\",\"inputs\":{},\"obs\":[{}],\"notes\":{}}}", inp, obs.join(","), notes)); } }
            End::Pruned => self.st.pruned += 1,
            End::PanicOk(_) => self.st.panics_ok += 1,
            End::Panic(m) => self.report(s, "violation", &m),
            End::Violation(m) => self.report(s, "violation", &m),
            End::Err(m) => self.report(s, "error", &m),
            End::Abandon => { self.st.paths -= 1 }
        }
    }
}
fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
fn insert(a: Val, v: Val, path: &[u32]) -> Val { if path.is_empty() { return v; } match a { Val::A(x) => { let mut y = (*x).clone(); let i = path[0] as usize; let old = std::mem::replace(&mut y[i], Val::I(0)); let old = if path.len() > 1 && !matches!(old, Val::A(_)) { Val::A(Rc::new(vec![Val::I(0); 16])) } else { old }; y[i] = insert(old, v, &path[1..]); Val::A(Rc::new(y)) } x => x } }
pub fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
pub fn short(n: &str) -> String {
    // legacy mangling -> last path segments
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes(); let mut i = 0; let mut segs = vec![];
        while i < b.len() && b[i].is_ascii_digit() { let mut k = 0; while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1; } if i + k > r.len() { break; } segs.push(&r[i..i + k]); i += k; }
        if segs.last().map_or(false, |s| s.starts_with('h') && s.len() == 17) { segs.pop(); }
        return segs.join("::").replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("..", "::").replace("$u7b$", "{").replace("$u7d$", "}").replace("$C$", ",").replace("$LP$", "(").replace("$RP$", ")").replace("$u5b$","[").replace("$u5d$","]").replace("$BP$","*");
    }
    n.to_string()
}
#[allow(unused)]
fn _u(_: &ir::Edge) {}
