//! I01: encoding of instructions; V01: what each instruction does.
use cairo_m_common::instruction::{Instruction, INSTRUCTION_MAX_SIZE};
use cairo_m_common::State;
use cairo_m_runner::memory::Memory;
use cairo_m_runner::vm::instructions::instruction_to_fn;
use smallvec::SmallVec;
pub use stwo_prover::core::fields::m31::M31;
pub use stwo_prover::core::fields::qm31::QM31;
pub use symrt::*;
pub const P: u32 = 0x7fff_ffff;
pub const OPS: [u32; 39] = [0, 1, 2, 3, 4, 6, 48, 50, 8, 42, 9, 43, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 21, 22, 23, 24, 28, 30, 34, 36, 37, 38, 39, 40, 41, 44, 45, 46, 47];
/// what the operands of an opcode are, in their order: a felt or u32 cell, an immediate, a limb of an immediate
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum A { F, U, I, L }
pub fn shape(op: u32) -> &'static [A] {
    use A::*;
    match op { 0..=3 | 42 | 45 => &[F, F, F], 4 | 6 | 48 | 8 | 44 => &[F, I, F], 50 => &[F, I], 9 | 43 => &[I, F], 10 => &[I, I], 11 => &[], 12 | 13 => &[I], 14 => &[F, I], 15..=17 | 36..=38 => &[U, U, U], 18 => &[U, U, U, U], 19 | 21 | 39..=41 => &[U, L, L, U], 22 => &[U, L, L, U, U], 23 => &[L, L, U], 24 | 28 => &[U, U, F], 30 | 34 => &[U, L, L, F], 46 => &[F], 47 => &[U], _ => panic!("opcode {op}") }
}
pub fn make(op: u32, a: &[M31]) -> Instruction {
    use Instruction::*;
    macro_rules! fff { ($n:ident, $x:ident, $y:ident, $z:ident) => { $n { $x: a[0], $y: a[1], $z: a[2] } }; }
    macro_rules! four { ($n:ident) => { $n { src_off: a[0], imm_lo: a[1], imm_hi: a[2], dst_off: a[3] } }; }
    match op {
        0 => fff!(StoreAddFpFp, src0_off, src1_off, dst_off), 1 => fff!(StoreSubFpFp, src0_off, src1_off, dst_off), 2 => fff!(StoreMulFpFp, src0_off, src1_off, dst_off), 3 => fff!(StoreDivFpFp, src0_off, src1_off, dst_off),
        4 => fff!(StoreAddFpImm, src_off, imm, dst_off), 6 => fff!(StoreMulFpImm, src_off, imm, dst_off), 48 => fff!(StoreLeFpImm, src_off, imm, dst_off), 50 => AssertEqFpImm { src_off: a[0], imm: a[1] },
        8 => fff!(StoreDoubleDerefFp, base_off, imm, dst_off), 42 => fff!(StoreDoubleDerefFpFp, base_off, offset_off, dst_off), 9 => StoreImm { imm: a[0], dst_off: a[1] }, 43 => StoreFramePointer { imm: a[0], dst_off: a[1] },
        10 => CallAbsImm { frame_off: a[0], target: a[1] }, 11 => Ret {}, 12 => JmpAbsImm { target: a[0] }, 13 => JmpRelImm { offset: a[0] }, 14 => JnzFpImm { cond_off: a[0], offset: a[1] },
        15 => fff!(U32StoreAddFpFp, src0_off, src1_off, dst_off), 16 => fff!(U32StoreSubFpFp, src0_off, src1_off, dst_off), 17 => fff!(U32StoreMulFpFp, src0_off, src1_off, dst_off), 18 => U32StoreDivRemFpFp { src0_off: a[0], src1_off: a[1], dst_off: a[2], dst_rem_off: a[3] },
        19 => four!(U32StoreAddFpImm), 21 => four!(U32StoreMulFpImm), 22 => U32StoreDivRemFpImm { src_off: a[0], imm_lo: a[1], imm_hi: a[2], dst_off: a[3], dst_rem_off: a[4] }, 23 => U32StoreImm { imm_lo: a[0], imm_hi: a[1], dst_off: a[2] },
        24 => fff!(U32StoreEqFpFp, src0_off, src1_off, dst_off), 28 => fff!(U32StoreLtFpFp, src0_off, src1_off, dst_off), 30 => four!(U32StoreEqFpImm), 34 => four!(U32StoreLtFpImm),
        36 => fff!(U32StoreAndFpFp, src0_off, src1_off, dst_off), 37 => fff!(U32StoreOrFpFp, src0_off, src1_off, dst_off), 38 => fff!(U32StoreXorFpFp, src0_off, src1_off, dst_off), 39 => four!(U32StoreAndFpImm), 40 => four!(U32StoreOrFpImm), 41 => four!(U32StoreXorFpImm),
        44 => fff!(StoreToDoubleDerefFpImm, base_off, imm, src_off), 45 => fff!(StoreToDoubleDerefFpFp, base_off, offset_off, src_off), 46 => PrintM31 { offset: a[0] }, 47 => PrintU32 { offset: a[0] },
        _ => panic!("opcode {op}"),
    }
}
pub fn add(a: u32, b: u32) -> u32 { (M31(a) + M31(b)).0 }
/// memory and log of accesses as the architecture has them
#[derive(Clone)]
pub struct Ref { pub cells: Vec<u32>, pub log: Vec<(u32, u32)> }
impl Ref {
    fn rd(&mut self, a: u32) -> Result<u32, ()> { let a = concretize(a as u64) as usize; if a >= 1 << 28 { return Err(()) } let v = self.cells.get(a).copied().unwrap_or(0); self.log.push((a as u32, v)); Ok(v) }
    fn wr(&mut self, a: u32, v: u32) -> Result<(), ()> { let a = concretize(a as u64) as usize; if a >= 1 << 28 { return Err(()) } if a < self.cells.len() { self.cells[a] = v; } self.log.push((a as u32, v)); Ok(()) }
    fn rd2(&mut self, a: u32) -> Result<u32, ()> { let l = self.rd(a)?; let h = self.rd(add(a, 1))?; if (l > 0xffff) | (h > 0xffff) { return Err(()) } Ok(l | h << 16) }
    fn wr2(&mut self, a: u32, v: u32) -> Result<(), ()> { self.wr(a, v & 0xffff)?; self.wr(add(a, 1), v >> 16) }
    pub fn step(&mut self, pc: u32, fp: u32, op: u32, x: &[u32]) -> Result<(u32, u32), ()> {
        let at = |i: usize| add(fp, x[i]); let limbs = |l: u32, h: u32| if (l > 0xffff) | (h > 0xffff) { Err(()) } else { Ok(l | h << 16) };
        let next = Ok((add(pc, if x.len() > 3 { 2 } else { 1 }), fp));
        let bin = |op: u32, a: u32, b: u32| match op { 15 | 19 => a.wrapping_add(b), 16 => a.wrapping_sub(b), 17 | 21 => a.wrapping_mul(b), 36 | 39 => a & b, 37 | 40 => a | b, 38 | 41 => a ^ b, 24 | 30 => (a == b) as u32, _ => (a < b) as u32 };
        match op {
            0..=3 => { let a = self.rd(at(0))?; let b = self.rd(at(1))?; let v = match op { 0 => add(a, b), 1 => (M31(a) - M31(b)).0, 2 => (M31(a) * M31(b)).0, _ => { assume(b != 0); (M31(a) / M31(b)).0 } }; self.wr(at(2), v)? }
            4 | 6 | 48 => { let a = self.rd(at(0))?; let v = match op { 4 => add(a, x[1]), 6 => (M31(a) * M31(x[1])).0, _ => (a <= x[1]) as u32 }; self.wr(at(2), v)? }
            50 => { if self.rd(at(0))? != x[1] { return Err(()) } }
            8 => { let b = self.rd(at(0))?; let v = self.rd(add(b, x[1]))?; self.wr(at(2), v)? }
            42 => { let b = self.rd(at(0))?; let o = self.rd(at(1))?; let v = self.rd(add(b, o))?; self.wr(at(2), v)? }
            44 => { let b = self.rd(at(0))?; let v = self.rd(at(2))?; self.wr(add(b, x[1]), v)? }
            45 => { let b = self.rd(at(0))?; let o = self.rd(at(1))?; let v = self.rd(at(2))?; self.wr(add(b, o), v)? }
            9 => self.wr(at(1), x[0])?, 43 => self.wr(at(1), at(0))?,
            10 => { let n = add(pc, 1); self.wr(at(0), fp)?; self.wr(add(at(0), 1), n)?; return Ok((x[1], add(at(0), 2))) }
            11 => { let p = self.rd(add(fp, P - 1))?; let f = self.rd(add(fp, P - 2))?; return Ok((p, f)) }
            12 => return Ok((x[0], fp)), 13 => return Ok((add(pc, x[0]), fp)),
            14 => { if self.rd(at(0))? != 0 { return Ok((add(pc, x[1]), fp)) } }
            15..=17 | 36..=38 => { let a = self.rd2(at(0))?; let b = self.rd2(at(1))?; self.wr2(at(2), bin(op, a, b))? }
            24 | 28 => { let a = self.rd2(at(0))?; let b = self.rd2(at(1))?; self.wr(at(2), bin(op, a, b))? }
            18 => { let a = self.rd2(at(0))?; let b = self.rd2(at(1))?; if b == 0 { return Err(()) } self.wr2(at(2), a / b)?; self.wr2(at(3), a % b)? }
            19 | 21 | 39..=41 => { let b = limbs(x[1], x[2])?; let a = self.rd2(at(0))?; self.wr2(at(3), bin(op, a, b))? }
            30 | 34 => { let b = limbs(x[1], x[2])?; let a = self.rd2(at(0))?; self.wr(at(3), bin(op, a, b))? }
            22 => { let b = limbs(x[1], x[2])?; if b == 0 { return Err(()) } let a = self.rd2(at(0))?; self.wr2(at(3), a / b)?; self.wr2(at(4), a % b)? }
            23 => { limbs(x[0], x[1])?; self.wr(at(2), x[0])?; self.wr(add(at(2), 1), x[1])? }
            46 => { let l = self.log.len(); self.rd(at(0))?; self.log.truncate(l) } 47 => { let l = self.log.len(); self.rd2(at(0))?; self.log.truncate(l) }
            _ => return Err(()),
        }
        next
    }
}
pub fn q(v: u32) -> QM31 { QM31::from_u32_unchecked(v, 0, 0, 0) }
const N: usize = 9;
/// any instruction on any operands, overlapping or not, over any contents
pub fn h_op() {
    let op = OPS[choose("op", OPS.len())]; let s = shape(op); let offs: &[u32] =  &[0, 1, 2, 3, P - 1, P - 2, P - 4, P - 5, 1 << 28] ;
    let deref = (op == 8) | (op == 42) | (op == 44) | (op == 45); let fp = 4u32;
    let targets: &[u32] = if thorough() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, N as u32 + 2, (1 << 28) - 1, 1 << 28, P - 1] } else { &[0, 2, 4, 8, N as u32 + 2, 1 << 28, P - 1] };
    let mut cells: Vec<u32> = (0..N).map(|i| felt(&format!("m{i}"))).collect();
    let mut x: Vec<u32> = s.iter().enumerate().map(|(i, k)| match k { A::F | A::U => pick(&format!("o{i}"), offs), A::I => if (op == 10) & (i == 0) { pick("frame", &[0, 1, 3, P - 3]) } else { felt(&format!("i{i}")) }, A::L => felt(&format!("i{i}")) }).collect();
    if deref { // the address reached is one of the cells, or one outside: the offset is what leads there from the base
        let t = pick("target", targets); let (ib, io) = (add(fp, x[0]) as usize, add(fp, x[1]) as usize); let imm = (op == 8) | (op == 44);
        if ib < N && (imm || io < N) {
            if !imm && ib == io { cells[ib] = (M31(t) * M31(1 << 30)).0 } else { let o = (M31(t) - M31(cells[ib])).0; if imm { x[1] = o } else { cells[io] = o } }
        }
    }
    let pc = felt("pc"); let mut mem = Memory::default(); mem.extend(cells.iter().map(|c| q(*c)));
    let i = make(op, &x.iter().map(|v| M31(*v)).collect::<Vec<_>>()); if !is_symbolic() { note(&format!("{i:?} {cells:?}")); }
    let mut r = Ref { cells: cells.clone(), log: vec![] }; let want = r.step(pc, fp, op, &x);
    let f = instruction_to_fn(i); check(f.is_ok(), "every instruction has a handler");
    let got = f.unwrap()(&mut mem, State { pc: M31(pc), fp: M31(fp) }, &i);
    match want {
        Err(()) => { check(got.is_err(), "what cannot be done is an error"); reach("error"); }
        Ok((p, f)) => {
            check(got.is_ok(), "what can be done is done"); let got = got.unwrap(); check((got.pc.0 == p) & (got.fp.0 == f), "the next state is the one of the instruction");
            for a in 0..N { check(mem.get_data_no_trace(M31(a as u32)).ok().map(|v| v.0) == Some(r.cells[a]), "memory changes where and how the instruction says"); }
            let log = mem.trace.borrow(); check(log.len() == r.log.len(), "every access is logged once");
            for (e, (a, v)) in log.iter().zip(&r.log) { check((e.addr.0 == *a) & (e.value == q(*v)), "an access is logged with its address and value"); }
            check((op == 46) | (op == 47) | (i.memory_accesses() == log.len()), "an instruction accesses memory as often as it says"); reach("done");
        }
    }
}
/// any instruction with any operands survives its encodings
pub fn h_codec() {
    let op = OPS[choose("op", OPS.len())]; let s = shape(op); let a: Vec<M31> = s.iter().enumerate().map(|(k, _)| M31(felt(&format!("a{k}")))).collect(); let i = make(op, &a);
    check(i.opcode_value() == op, "an instruction has its opcode"); check(i.size_in_m31s() == 1 + a.len(), "the size of an instruction is that of its operands and opcode");
    let v = i.to_smallvec(); check((v.len() == 1 + a.len()) && (v[0].0 == op) && v[1..].iter().zip(&a).all(|(x, y)| x == y), "the words of an instruction are its opcode and operands, in order");
    check(Instruction::try_from(v.clone()).ok() == Some(i), "decoding the words gives the instruction");
    check(Instruction::size_in_m31s_for_opcode(op) == Some(v.len()) && Instruction::size_in_qm31s_for_opcode(op) == Some(i.size_in_qm31s()) && i.size_in_qm31s() as usize == v.len().div_ceil(4), "the sizes by opcode agree");
    let w = i.to_qm31_vec(); check(w.len() == i.size_in_qm31s() as usize, "an instruction takes as many cells as it says");
    let flat: Vec<M31> = w.iter().flat_map(|q| q.to_m31_array()).collect(); check(flat[..v.len()] == v[..] && flat[v.len()..].iter().all(|z| z.0 == 0), "cells are filled in order and padded with zeros");
    // in memory, between other things
    let before = choose("before", 2); let after = choose("after", 2); let mut m = Memory::default(); m.extend((0..before).map(|k| q(felt(&format!("b{k}"))))); m.extend(w.clone()); m.extend((0..after).map(|k| q(felt(&format!("c{k}")))));
    let g = m.get_instruction(M31(before as u32)); check(g.is_ok(), "an instruction in memory is found"); check(Instruction::try_from(g.unwrap()).ok() == Some(i), "an instruction in memory is the one put there");
    let log = m.trace.borrow(); check(log.len() == w.len() && log.iter().zip(&w).enumerate().all(|(k, (e, q))| (e.addr.0 == (before + k) as u32) & (e.value == *q)), "fetching an instruction logs its cells"); reach("end");
}
/// decoding words that nobody encoded
pub fn h_decode() {
    let n = choose("len", INSTRUCTION_MAX_SIZE + 1); let op = felt("op"); let known = n > 0 && OPS.contains(&op);
    let mut w: Vec<M31> = (1..n).map(|k| M31(felt(&format!("a{k}")))).collect(); if n > 0 { w.insert(0, M31(op)); }
    let r = Instruction::try_from(SmallVec::from_slice(&w));
    if known { let op = concretize(op as u64) as u32; let fits = shape(op).len() + 1 == n; check(r.is_ok() == fits, "words are an instruction exactly if their number is right"); if fits { check(r.ok() == Some(make(op, &w[1..])), "decoded operands are the words in order"); reach("known"); } }
    else { check(r.is_err(), "an unknown opcode is an error"); reach("unknown"); }
}
