//! Flat paged memory with copy-on-write pages and an optional per-byte symbolic overlay.
use crate::expr::E;
use std::rc::Rc;

pub const PS: u64 = 4096;
#[derive(Clone)]
pub struct Page { pub d: [u8; PS as usize], pub s: Option<Box<[E; PS as usize]>>, pub nsym: u32 }
impl Page { fn zero() -> Page { Page { d: [0; PS as usize], s: None, nsym: 0 } } }

pub const HEAP: u64 = 0x2_0000_0000;
pub const STACK: u64 = 0x7_0000_0000;
const LIM: u64 = 0x1_0000_0000;

#[derive(Clone)]
pub struct Mem { g: Vec<Option<Rc<Page>>>, h: Vec<Option<Rc<Page>>>, st: Vec<Option<Rc<Page>>> }

pub enum Ld { C(u64), C128(u128), Sym(Vec<(u8, E)>) , Bad }

impl Mem {
    pub fn new() -> Mem { Mem { g: vec![], h: vec![], st: vec![] } }
    #[inline(always)]
    fn page(&self, a: u64) -> Option<&Page> {
        let (v, b) = if a >= STACK { (&self.st, STACK) } else if a >= HEAP { (&self.h, HEAP) } else if a >= crate::ir::GBASE { (&self.g, crate::ir::GBASE) } else { return None };
        match v.get(((a - b) / PS) as usize) { Some(Some(p)) => Some(p), _ => None }
    }
    #[inline(always)]
    fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let (v, b) = if a >= STACK { (&mut self.st, STACK) } else if a >= HEAP { (&mut self.h, HEAP) } else if a >= crate::ir::GBASE { (&mut self.g, crate::ir::GBASE) } else { return None };
        if a - b >= LIM { return None; }
        let i = ((a - b) / PS) as usize;
        if i >= v.len() { v.resize(i + 1, None); }
        let slot = &mut v[i];
        if slot.is_none() { *slot = Some(Rc::new(Page::zero())); }
        Some(Rc::make_mut(slot.as_mut().unwrap()))
    }
    pub fn mapped(&self, a: u64) -> bool { a >= crate::ir::GBASE && a < STACK + LIM }
    #[inline(always)]
    pub fn load(&self, a: u64, n: usize) -> Ld {
        let o = (a % PS) as usize;
        if o + n <= PS as usize && n <= 8 {
            match self.page(a) {
                Some(p) => {
                    if p.nsym == 0 || !p.s.as_ref().unwrap()[o..o + n].iter().any(|x| *x != 0) {
                        return Ld::C(unsafe { match n {
                            8 => (p.d.as_ptr().add(o) as *const u64).read_unaligned(),
                            4 => (p.d.as_ptr().add(o) as *const u32).read_unaligned() as u64,
                            2 => (p.d.as_ptr().add(o) as *const u16).read_unaligned() as u64,
                            1 => p.d[o] as u64,
                            _ => { let mut v = 0u64; for i in (0..n).rev() { v = (v << 8) | p.d[o + i] as u64 } v }
                        } });
                    }
                }
                None => return if self.mapped(a) { Ld::C(0) } else { Ld::Bad },
            }
        }
        if !self.mapped(a) { return Ld::Bad; }
        let b: Vec<(u8, E)> = (0..n as u64).map(|i| self.byte(a + i)).collect();
        if b.iter().all(|x| x.1 == 0) {
            let mut v = 0u128; for x in b.iter().rev() { v = (v << 8) | x.0 as u128 }
            if n <= 8 { Ld::C(v as u64) } else { Ld::C128(v) }
        } else { Ld::Sym(b) }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> (u8, E) { match self.page(a) { Some(p) => { let o = (a % PS) as usize; (p.d[o], if p.nsym > 0 { p.s.as_ref().unwrap()[o] } else { 0 }) } None => (0, 0) } }
    #[inline(always)]
    pub fn store(&mut self, a: u64, n: usize, v: u64) -> bool {
        let o = (a % PS) as usize;
        if o + n <= PS as usize {
            let p = match self.page_mut(a) { Some(p) => p, None => return false };
            if p.nsym > 0 { let s = p.s.as_mut().unwrap(); let mut k = 0; for x in &mut s[o..o + n] { if *x != 0 { *x = 0; k += 1; } } p.nsym -= k; if p.nsym == 0 { p.s = None } }
            unsafe { match n {
                8 => (p.d.as_mut_ptr().add(o) as *mut u64).write_unaligned(v),
                4 => (p.d.as_mut_ptr().add(o) as *mut u32).write_unaligned(v as u32),
                2 => (p.d.as_mut_ptr().add(o) as *mut u16).write_unaligned(v as u16),
                1 => p.d[o] = v as u8,
                _ => for i in 0..n { p.d[o + i] = (v >> (8 * i)) as u8 },
            } }
            true
        } else { for i in 0..n as u64 { if !self.set(a + i, (v >> (8 * i)) as u8, 0) { return false; } } true }
    }
    pub fn set(&mut self, a: u64, b: u8, e: E) -> bool {
        let o = (a % PS) as usize;
        let p = match self.page_mut(a) { Some(p) => p, None => return false };
        p.d[o] = b;
        if e != 0 || p.nsym > 0 {
            if p.s.is_none() { p.s = Some(Box::new([0; PS as usize])); }
            let s = &mut p.s.as_mut().unwrap()[o];
            if *s != 0 && e == 0 { p.nsym -= 1 } else if *s == 0 && e != 0 { p.nsym += 1 }
            *s = e;
            if p.nsym == 0 { p.s = None }
        }
        true
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> bool {
        if n == 0 { return true; }
        if !self.mapped(src) || !self.mapped(dst) { return false; }
        // gather then scatter, page-wise
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(u64, E)> = vec![];
        let mut i = 0;
        while i < n {
            let a = src + i; let o = a % PS; let k = (PS - o).min(n - i);
            match self.page(a) {
                Some(p) => { buf.extend_from_slice(&p.d[o as usize..(o + k) as usize]); if p.nsym > 0 { for (j, e) in p.s.as_ref().unwrap()[o as usize..(o + k) as usize].iter().enumerate() { if *e != 0 { syms.push((i + j as u64, *e)) } } } }
                None => buf.resize(buf.len() + k as usize, 0),
            }
            i += k;
        }
        if !self.write(dst, &buf) { return false; }
        for (o, e) in syms { let b = buf[o as usize]; self.set(dst + o, b, e); }
        true
    }
    pub fn write(&mut self, dst: u64, buf: &[u8]) -> bool {
        let n = buf.len() as u64; let mut i = 0;
        while i < n {
            let a = dst + i; let o = a % PS; let k = (PS - o).min(n - i);
            let p = match self.page_mut(a) { Some(p) => p, None => return false };
            p.d[o as usize..(o + k) as usize].copy_from_slice(&buf[i as usize..(i + k) as usize]);
            if p.nsym > 0 { let s = p.s.as_mut().unwrap(); let mut c = 0; for x in &mut s[o as usize..(o + k) as usize] { if *x != 0 { *x = 0; c += 1 } } p.nsym -= c; if p.nsym == 0 { p.s = None } }
            i += k;
        }
        true
    }
    pub fn fill(&mut self, dst: u64, b: u8, n: u64) -> bool {
        let mut i = 0;
        while i < n {
            let a = dst + i; let o = a % PS; let k = (PS - o).min(n - i);
            let p = match self.page_mut(a) { Some(p) => p, None => return false };
            p.d[o as usize..(o + k) as usize].fill(b);
            if p.nsym > 0 { let s = p.s.as_mut().unwrap(); let mut c = 0; for x in &mut s[o as usize..(o + k) as usize] { if *x != 0 { *x = 0; c += 1 } } p.nsym -= c; if p.nsym == 0 { p.s = None } }
            i += k;
        }
        true
    }
    /// drop stack pages wholly above `sp` is not needed; pages are reused
    pub fn npages(&self) -> usize { self.g.len() + self.h.len() + self.st.len() }
}
