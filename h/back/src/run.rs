//! V02: memory; V03: runs and their segments; A01: arguments and results; A02: arguments as text.
use crate::vm::*;
use cairo_m_common::program::{AbiSlot, AbiType, EntrypointInfo};
use cairo_m_common::{parse_cli_arg, CairoMValue, InputValue, Instruction, Program, ProgramData};
use cairo_m_common::abi_codec::m31_from_i64;
use cairo_m_runner::memory::Memory;
use cairo_m_runner::vm::VM;
use cairo_m_runner::{run_cairo_program, RunnerOptions};
use std::collections::{BTreeMap, HashMap};

fn words(q: &QM31) -> [u32; 4] { q.to_m31_array().map(|m| m.0) }
fn qm(w: &[u32; 4]) -> QM31 { QM31::from_u32_unchecked(w[0], w[1], w[2], w[3]) }
const TOP: u32 = (1 << 28) - 1;
/// any few reads and writes at both ends of memory and beyond
pub fn h_memory() {
    let at: &[u32] = if thorough() { &[0, 1, 2, 5, TOP, TOP - 1, TOP - 4, TOP + 1, P - 1] } else { &[0, 1, 3, TOP, TOP - 2, TOP + 1, P - 1] };
    let mut mem = Memory::default(); let mut cells: BTreeMap<u32, [u32; 4]> = BTreeMap::new(); let mut log: Vec<(u32, [u32; 4])> = vec![];
    for i in 0..choose("loaded", 3) as u32 { let w = [felt("l"), 0, 0, if i == 1 { felt("x") } else { 0 }]; mem.extend([qm(&w)]); cells.insert(i, w); }
    for _ in 0..3 {
        let op = choose("op", 6); let a = pick("addr", at); let get = |cells: &BTreeMap<u32, [u32; 4]>, a: u32| if a > TOP { None } else { let w = cells.get(&a).copied().unwrap_or_default(); if (w[1] != 0) | (w[2] != 0) | (w[3] != 0) { None } else { Some(w[0]) } };
        let mut read = |log: &mut Vec<(u32, [u32; 4])>, a: u32| { let v = get(&cells, a); if let Some(v) = v { log.push((a, [v, 0, 0, 0])); } v };
        match op {
            0 => { let v = read(&mut log, a); check(mem.get_data(M31(a)).ok().map(|v| v.0) == v, "a read gives what was last written, or zero"); }
            1 => { let v = get(&cells, a); check(mem.get_data_no_trace(M31(a)).ok().map(|v| v.0) == v, "a silent read gives what was last written, or zero"); }
            2 => { let w = [felt("v"), 0, 0, 0]; let r = mem.insert(M31(a), qm(&w)); check(r.is_ok() == (a <= TOP), "a write fails exactly beyond memory"); if a <= TOP { cells.insert(a, w); log.push((a, w)); } }
            3 => { let w = [felt("v"), 0, felt("e"), 0]; let r = mem.insert(M31(a), qm(&w)); check(r.is_ok() == (a <= TOP), "a write fails exactly beyond memory"); if a <= TOP { cells.insert(a, w); log.push((a, w)); } }
            4 => { let l = read(&mut log, a); let h = if l.is_some() { read(&mut log, add(a, 1)) } else { None }; let v = match (l, h) { (Some(l), Some(h)) if (l <= 0xffff) & (h <= 0xffff) => Some(l | h << 16), _ => None }; check(mem.get_u32(M31(a)).ok() == v, "two cells are a number exactly if both are 16 bits"); }
            _ => { let v = u32("v"); let r = mem.insert_u32(M31(a), v); check(r.is_ok() == (a < TOP), "a number needs two cells"); for (b, x) in [(a, v & 0xffff), (add(a, 1), v >> 16)] { if b > TOP { break } cells.insert(b, [x, 0, 0, 0]); log.push((b, [x, 0, 0, 0])); } }
        }
    }
    for a in at { if *a <= TOP { let w = cells.get(a).copied().unwrap_or_default(); let v = if (w[1] != 0) | (w[2] != 0) | (w[3] != 0) { None } else { Some(w[0]) }; check(mem.get_data_no_trace(M31(*a)).ok().map(|v| v.0) == v, "every cell holds what was last written to it"); } }
    let t = mem.trace.borrow(); check(t.len() == log.len(), "every access is logged once"); for (e, (a, w)) in t.iter().zip(&log) { check((e.addr.0 == *a) & (words(&e.value) == *w), "an access is logged with its address and value"); }
    drop(t); let b = mem.serialize_trace(); let want: Vec<u8> = log.iter().flat_map(|(a, w)| [*a, w[0], w[1], w[2], w[3]]).flat_map(|x| x.to_le_bytes()).collect(); check(b == want, "the written log is the log"); reach("end");
}

/// a machine that only remembers: the whole memory, every state and access, and where each step began
struct Mach { mem: BTreeMap<u32, [u32; 4]>, states: Vec<(u32, u32)>, log: Vec<(u32, [u32; 4])>, marks: Vec<(usize, BTreeMap<u32, [u32; 4]>)> }
impl Mach {
    fn rd(&mut self, a: u32) -> u32 { let w = self.mem.get(&a).copied().unwrap_or_default(); self.log.push((a, w)); w[0] }
    fn wr(&mut self, a: u32, v: u32) { self.mem.insert(a, [v, 0, 0, 0]); self.log.push((a, [v, 0, 0, 0])); }
    fn run(&mut self, prog: &[Instruction], end: u32, mut pc: u32, mut fp: u32) {
        use Instruction::*;
        let mut at = BTreeMap::new(); let mut k = 0; for i in prog { at.insert(k, *i); k += i.size_in_qm31s(); }
        for _ in 0..60 {
            self.marks.push((self.log.len(), self.mem.clone())); self.states.push((pc, fp)); if pc == end { return }
            let i = at[&pc]; let n = i.size_in_qm31s(); for j in 0..n { let w = self.mem[&(pc + j)]; self.log.push((pc + j, w)); }
            let next = pc + n;
            match i {
                StoreImm { imm, dst_off } => { self.wr(add(fp, dst_off.0), imm.0); pc = next }
                StoreAddFpImm { src_off, imm, dst_off } => { let v = self.rd(add(fp, src_off.0)); self.wr(add(fp, dst_off.0), add(v, imm.0)); pc = next }
                StoreAddFpFp { src0_off, src1_off, dst_off } => { let a = self.rd(add(fp, src0_off.0)); let b = self.rd(add(fp, src1_off.0)); self.wr(add(fp, dst_off.0), add(a, b)); pc = next }
                U32StoreXorFpImm { src_off, imm_lo, imm_hi, dst_off } => { let l = self.rd(add(fp, src_off.0)); let h = self.rd(add(fp, add(src_off.0, 1))); self.wr(add(fp, dst_off.0), l ^ imm_lo.0); self.wr(add(fp, add(dst_off.0, 1)), h ^ imm_hi.0); pc = next }
                StoreToDoubleDerefFpImm { base_off, imm, src_off } => { let b = self.rd(add(fp, base_off.0)); let v = self.rd(add(fp, src_off.0)); self.wr(add(concretize(b as u64) as u32, imm.0), v); pc = next }
                StoreDoubleDerefFp { base_off, imm, dst_off } => { let b = self.rd(add(fp, base_off.0)); let v = self.rd(add(concretize(b as u64) as u32, imm.0)); self.wr(add(fp, dst_off.0), v); pc = next }
                JnzFpImm { cond_off, offset } => { if self.rd(add(fp, cond_off.0)) != 0 { pc = add(pc, offset.0) } else { pc = next } }
                JmpAbsImm { target } => pc = target.0,
                CallAbsImm { frame_off, target } => { self.wr(add(fp, frame_off.0), fp); self.wr(add(fp, add(frame_off.0, 1)), next); fp = add(fp, add(frame_off.0, 2)); pc = target.0 }
                Ret {} => { let p = self.rd(add(fp, P - 1)); let f = self.rd(add(fp, P - 2)); pc = concretize(p as u64) as u32; fp = concretize(f as u64) as u32 }
                _ => panic!("not in these programs"),
            }
        }
        assume(false)
    }
}
fn m(v: u32) -> M31 { M31(v) }
fn neg(v: u32) -> M31 { M31(P - v) }
/// programs cut into segments of any length: the segments put together are the run
pub fn h_run() {
    use Instruction::*;
    // one argument at fp-4, one result at fp-3
    let n = felt("n"); let k = choose("program", 4); let imm = felt("imm");
    let code: Vec<Instruction> = match k {
        0 => vec![StoreImm { imm: m(2), dst_off: m(0) }, StoreAddFpFp { src0_off: neg(4), src1_off: m(0), dst_off: neg(4) }, StoreAddFpImm { src_off: m(0), imm: neg(1), dst_off: m(0) }, JnzFpImm { cond_off: m(0), offset: neg(2) }, StoreAddFpImm { src_off: neg(4), imm: m(imm), dst_off: neg(3) }, Ret {}],
        1 => vec![CallAbsImm { frame_off: m(1), target: m(3) }, StoreAddFpFp { src0_off: m(0), src1_off: neg(4), dst_off: neg(3) }, Ret {}, StoreImm { imm: m(imm), dst_off: neg(3) }, CallAbsImm { frame_off: m(0), target: m(6) }, Ret {}, StoreImm { imm: m(1), dst_off: m(0) }, Ret {}],
        2 => vec![StoreImm { imm: m(TOP - 1), dst_off: m(0) }, StoreToDoubleDerefFpImm { base_off: m(0), imm: m(1), src_off: neg(4) }, StoreToDoubleDerefFpImm { base_off: m(0), imm: neg(1), src_off: m(0) }, StoreDoubleDerefFp { base_off: m(0), imm: m(1), dst_off: m(1) }, StoreAddFpFp { src0_off: m(1), src1_off: m(1), dst_off: neg(3) }, Ret {}],
        _ => vec![StoreImm { imm: m(77), dst_off: m(0) }, StoreImm { imm: m(65535), dst_off: m(1) }, U32StoreXorFpImm { src_off: m(0), imm_lo: m(65535), imm_hi: m(9), dst_off: m(2) }, JmpAbsImm { target: m(6) }, Ret {}, StoreAddFpFp { src0_off: m(3), src1_off: neg(4), dst_off: neg(3) }, JmpAbsImm { target: m(5) }],
    };
    let ro = choose("rodata", 2); let rv = felt("ro"); let mut data: Vec<ProgramData> = code.iter().map(|i| ProgramData::Instruction(*i)).collect(); if ro == 1 { data.push(ProgramData::Value(q(rv))); }
    let prog = Program::new(data, HashMap::new(), Default::default());
    let mut vm = VM::try_from(&prog).expect("loads"); let len: u32 = code.iter().map(|i| i.size_in_qm31s()).sum::<u32>() + ro as u32; let max = choose("max", tier(9, 16)) + 1; let gap = choose("gap", 2) as u32;
    let fp = len + 4 + gap; let mut r = Mach { mem: BTreeMap::new(), states: vec![], log: vec![], marks: vec![] };
    let mut a = 0; for i in &code { for w in i.to_qm31_vec() { r.mem.insert(a, words(&w)); a += 1; } } if ro == 1 { r.mem.insert(a, [rv, 0, 0, 0]); }
    r.mem.insert(fp - 4, [n, 0, 0, 0]); r.mem.insert(fp - 2, [fp, 0, 0, 0]); r.mem.insert(fp - 1, [len, 0, 0, 0]);
    r.run(&code, len, 0, fp);
    fork_loads(true); let got = vm.run_from_entrypoint(0, 4 + gap, &[M31(n)], 1, &RunnerOptions { max_steps: max }); fork_loads(false); check(got.is_ok(), "the program runs to its end");
    check((vm.program_length.0 == len) & (vm.final_pc.0 == len), "the program ends where its data ends");
    let steps = r.states.len() - 1; let segs = steps.div_ceil(max); check(vm.segments.len() == segs, "a run has as many segments as its length asks for");
    let (mut s, mut l) = (0, 0);
    for (k, g) in vm.segments.iter().enumerate() {
        let e = (s + max).min(steps); let want = &r.states[s..=e]; check(g.trace.len() == want.len(), "a segment has its steps and the state it ends in");
        for (x, y) in g.trace.iter().zip(want) { check((x.pc.0 == y.0) & (x.fp.0 == y.1), "a segment begins where the one before ended"); }
        let le = r.marks[e].0; let t = g.memory_trace.borrow(); check(t.len() == le - l, "a segment logs the accesses of its steps"); for (x, y) in t.iter().zip(&r.log[l..le]) { check((x.addr.0 == y.0) & (words(&x.value) == y.1), "accesses are logged in their order"); }
        let before = &r.marks[s].1; for (a, w) in before { let i = g.initial_memory.get(&M31(*a)); check(i.map(|i| words(&i.0)).unwrap_or_default() == *w, "a segment starts with the memory the one before left"); } for (a, i) in &g.initial_memory { check((words(&i.0) == before.get(&a.0).copied().unwrap_or_default()) & (i.1 .0 == 0) & (i.2 .0 == 0), "nothing else is in the memory a segment starts with"); }
        if k < 3 { let b = g.serialize_segment_trace(); let w: Vec<u8> = want.iter().flat_map(|(p, f)| [*f, *p]).flat_map(|x| x.to_le_bytes()).collect(); check(b == w, "the written states are the states");
            let b = g.serialize_segment_memory_trace(); let w: Vec<u8> = r.log[l..le].iter().flat_map(|(a, w)| [*a, w[0], w[1], w[2], w[3]]).flat_map(|x| x.to_le_bytes()).collect(); check(b == w, "the written accesses are the accesses"); }
        s = e; l = le;
    }
    for (a, w) in &r.mem { if w[1] | w[2] | w[3] == 0 { check(vm.memory.get_data_no_trace(M31(*a)).ok().map(|v| v.0) == Some(w[0]), "the memory at the end is what the run left"); } } reach("end");
}
/// where the traces of a run are written
pub fn h_trace_files() {
    let prog = Program::from(vec![Instruction::StoreImm { imm: m(5), dst_off: m(0) }, Instruction::Ret {}]); let mut vm = VM::try_from(&prog).unwrap(); let r = fs_root();
    vm.run_from_entrypoint(0, 2, &[], 0, &RunnerOptions { max_steps: 1 }).unwrap(); check(vm.segments.len() == 2, "two segments");
    for d in ["out", "out.d", ".h"] { fs_dir(&format!("{r}/{d}")); }
    let dir = pick("dir", &["", "out/", "out.d/", "./", ".h/", "./out.d/", "out/../"]); let (base, ext) = pick("name", &[("trace", ".bin"), ("trace", ""), ("a.b", ".c"), (".t", ""), ("x", ".")]); let abs = bool("absolute"); let which = bool("memory");
    let p = format!("{}{dir}{base}{ext}", if concretize(abs as u64) == 1 { format!("{r}/") } else { String::new() }); if !is_symbolic() { note(&p); }
    let got = if concretize(which as u64) == 1 { vm.write_binary_memory_trace(&p) } else { vm.write_binary_trace(&p) }; check(got.is_ok(), "traces can be written wherever a file can");
    let dir = match dir { "./" => "", "./out.d/" => "out.d/", "out/../" => "", d => d };
    for k in 0..2 { let g = &vm.segments[k]; let want = if concretize(which as u64) == 1 { let mut w = 3u32.to_le_bytes().to_vec(); w[0] = vm.program_length.0 as u8; w.extend(g.serialize_segment_memory_trace()); w } else { g.serialize_segment_trace() };
        match fs_get(&format!("{r}/{dir}{base}_segment_{k}{ext}")) { Fs::File(b) => check(b == want, "the file of a segment holds its trace"), _ => check(false, "each segment is written beside the path given, with its number") } }
    reach("end");
}

fn ty(depth: u32) -> AbiType { match choose("type", if depth == 0 { 3 } else { 8 }) {
    0 => AbiType::Felt, 1 => AbiType::U32, 2 => AbiType::Bool, 3 => AbiType::Tuple((0..choose("n", 3)).map(|_| ty(depth - 1)).collect()), 4 => AbiType::Struct { name: "S".into(), fields: (0..2).map(|i| (format!("f{i}"), ty(depth - 1))).collect() },
    5 => AbiType::FixedSizeArray { element: Box::new(ty(depth - 1)), size: choose("n", 3) as u32 }, 6 => { let n = choose("n", 3) as u32; AbiType::Pointer { element: Box::new(ty(depth - 1)), len: Some(n) } }, _ => AbiType::Unit,
} }
/// any value of a type: as it is given, as it comes back
fn val(t: &AbiType, c: &mut u32) -> (InputValue, CairoMValue) { *c += 1; match t {
    AbiType::Felt => { let f = if *c % 2 == 0 { 70000 + *c } else { P - *c }; (InputValue::Number(f as i64 - if *c % 3 == 0 { P as i64 } else { 0 }), CairoMValue::Felt(M31(f))) }
    AbiType::U32 => { let v = u32("u32"); (InputValue::Number(v as i64), CairoMValue::U32(v)) }
    AbiType::Bool => { let b = *c % 2 == 0; (if *c % 4 < 2 { InputValue::Bool(b) } else { InputValue::Number(b as i64) }, CairoMValue::Bool(b)) }
    AbiType::Tuple(v) => { let (a, b) = v.iter().map(|t| val(t, c)).unzip(); (InputValue::List(a), CairoMValue::Tuple(b)) }
    AbiType::Struct { fields, .. } => { let (a, b) = fields.iter().map(|(n, t)| { let (a, b) = val(t, c); (a, (n.clone(), b)) }).unzip(); (InputValue::Struct(a), CairoMValue::Struct(b)) }
    AbiType::FixedSizeArray { element, size } => { let (a, b) = (0..*size).map(|_| val(element, c)).unzip(); (InputValue::List(a), CairoMValue::Array(b)) }
    AbiType::Pointer { element, len } => { let (a, b) = (0..len.unwrap()).map(|_| val(element, c)).unzip(); (InputValue::List(a), CairoMValue::Array(b)) }
    AbiType::Unit => (InputValue::Unit, CairoMValue::Unit),
} }
fn slots(t: &AbiType) -> u32 { match t { AbiType::Felt | AbiType::Bool | AbiType::Pointer { .. } | AbiType::FixedSizeArray { .. } => 1, AbiType::U32 => 2, AbiType::Tuple(v) => v.iter().map(slots).sum(), AbiType::Struct { fields, .. } => fields.iter().map(|f| slots(&f.1)).sum(), AbiType::Unit => 0 } }
/// a program that returns its parameters
fn echo(params: &[AbiType]) -> (Program, u32) {
    let n: u32 = params.iter().map(slots).sum(); let mut data: Vec<ProgramData> = (0..n).map(|i| ProgramData::Instruction(Instruction::StoreAddFpImm { src_off: neg(2 * n + 2 - i), imm: m(0), dst_off: neg(n + 2 - i) })).collect(); data.push(ProgramData::Instruction(Instruction::Ret {}));
    let s = |k: &str| params.iter().enumerate().map(|(i, t)| AbiSlot { name: format!("{k}{i}"), ty: t.clone() }).collect::<Vec<_>>();
    (Program::new(data, HashMap::from([("f".to_string(), EntrypointInfo { pc: 0, params: s("p"), returns: s("r") })]), Default::default()), n)
}
/// arguments of any type arrive, and results come back, as they are
pub fn h_abi() {
    let mut c = 0; let params: Vec<AbiType> = (0..choose("params", 2) + 1).map(|i| ty(if i == 0 { 2 } else { tier(0, 1) as u32 })).collect(); let (args, want): (Vec<_>, Vec<_>) = params.iter().map(|t| val(t, &mut c)).unzip(); let (p, n) = echo(&params); if !is_symbolic() { note(&format!("{params:?} {args:?}")); }
    fork_loads(true); let r = run_cairo_program(&p, "f", &args, RunnerOptions::default()); fork_loads(false);
    check(r.is_ok(), "arguments of the types declared are taken"); let r = r.unwrap(); check(r.return_values == want, "what comes back is what was given");
    let g = &r.public_address_ranges; let mem = &r.vm.segments[0].initial_memory; check((g.program == (0..n + 1)) & (g.input.end - g.input.start == n) & (g.output.start == g.input.end) & (g.output.end - g.output.start == n), "the public ranges are the program, the arguments and the results");
    for i in 0..n { let a = mem.get(&M31(g.input.start + i)).map(|v| words(&v.0)); let o = r.vm.memory.get_data_no_trace(M31(g.output.start + i)).ok().map(|v| v.0); check(a.map(|a| a[0]) == o, "the public input is the arguments, the public output the results"); }
    check((r.vm.state.fp.0 == g.output.end + 2) | (n == 0), "the frame follows the results"); reach("end");
}
/// arguments that do not fit are errors
pub fn h_abi_wrong() {
    let t = match choose("type", 8) { 0 => AbiType::Felt, 1 => AbiType::U32, 2 => AbiType::Bool, 3 => AbiType::Tuple(vec![AbiType::Felt, AbiType::Bool]), 4 => AbiType::Struct { name: "S".into(), fields: vec![("a".into(), AbiType::U32), ("b".into(), AbiType::Felt)] }, 5 => AbiType::FixedSizeArray { element: Box::new(AbiType::U32), size: 2 }, 6 => AbiType::Pointer { element: Box::new(AbiType::Felt), len: if choose("len", 2) == 1 { Some(2) } else { None } }, _ => AbiType::Unit };
    let num = |any: bool| InputValue::Number(if any && matches!(t, AbiType::U32) && choose("any", 2) == 0 { u32("n") as i64 } else { pick("n", &[-1, 1 << 31, (1 << 32) - 1, 1 << 32, P as i64, i64::MIN, i64::MAX, i64::MIN + 1, 2, 0x1_0000_0001]) });
    let v = match choose("value", 9) { 0 => num(true), 1 => InputValue::Bool(concretize(bool("b") as u64) == 1), 2 => InputValue::List((0..choose("n", 4)).map(|_| InputValue::Number(1)).collect()), 3 => InputValue::Struct((0..choose("n", 4)).map(|_| InputValue::Number(1)).collect()), 4 => InputValue::Unit, 5 => InputValue::List(vec![InputValue::List(vec![]), InputValue::Number(1)]), 6 => InputValue::List(vec![num(false), InputValue::Bool(true)]), 7 => InputValue::Struct(vec![num(false), InputValue::Number(4)]), _ => InputValue::List(vec![InputValue::Number(3), num(false)]) };
    fn fits(t: &AbiType, v: &InputValue) -> bool { match (t, v) { (AbiType::Felt, InputValue::Number(_)) => true, (AbiType::U32, InputValue::Number(n)) => (*n >= 0) & (*n <= 0xffff_ffff), (AbiType::Bool, InputValue::Bool(_)) => true, (AbiType::Bool, InputValue::Number(n)) => (*n == 0) | (*n == 1), (AbiType::Unit, InputValue::Unit) => true,
        (AbiType::Tuple(t), InputValue::List(v)) => (t.len() == v.len()) && t.iter().zip(v).all(|(t, v)| fits(t, v)), (AbiType::Struct { fields, .. }, InputValue::Struct(v)) => (fields.len() == v.len()) && fields.iter().zip(v).all(|(t, v)| fits(&t.1, v)),
        (AbiType::FixedSizeArray { element, size }, InputValue::List(v)) => (*size as usize == v.len()) && v.iter().all(|v| fits(element, v)), (AbiType::Pointer { element, len }, InputValue::List(v)) => (len.is_none_or(|l| l as usize == v.len())) && v.iter().all(|v| fits(element, v)), _ => false } }
    let (p, _) = echo(&[AbiType::Felt, t.clone()]); let args = match choose("number", 4) { 0 => vec![InputValue::Number(7)], 1 => vec![InputValue::Number(7), v.clone(), InputValue::Number(7)], _ => vec![InputValue::Number(7), v.clone()] }; let name = pick("name", &["f", "g"]); if !is_symbolic() { note(&format!("{t:?} {args:?} {name}")); }
    if is_symbolic() | true { fork_loads(true); } let r = run_cairo_program(&p, name, &args, RunnerOptions::default()); fork_loads(false);
    check(r.is_ok() == ((name == "f") && (args.len() == 2) && fits(&t, &v)), "a call is made exactly if its arguments fit"); if r.is_ok() { reach("fits") } else { reach("rejected") }
}
/// any integer stands for its residue
pub fn h_felt_arg() {
    let r = felt("r") as i64; let k = pick("k", &[0i64, 1, -1, 2, -2, 77, -1000, 1 << 20, -(1 << 31), (1 << 32), -(1 << 32)]); let n = k * P as i64 + r; check(m31_from_i64(n).0 as i64 == r, "a number is taken modulo the prime"); check(m31_from_i64(pick("m", &[i64::MIN, i64::MAX, i64::MIN + 1, -1, 0])).0 < P, "felts are canonical"); reach("end");
}

/// the grammar of arguments
struct Ref2<'a> { s: &'a [u8], i: usize }
impl Ref2<'_> {
    fn is(&self, c: u8) -> bool { self.i < self.s.len() && self.s[self.i] == c }
    fn ws(&mut self) { while self.i < self.s.len() && { let c = self.s[self.i]; (c == b' ') | ((c >= 9) & (c <= 13)) } { self.i += 1; } }
    fn value(&mut self) -> Option<InputValue> {
        self.ws(); for (o, c, st) in [(b'[', b']', false), (b'(', b')', false), (b'{', b'}', true)] { if self.is(o) { self.i += 1; let mut v = vec![]; self.ws(); if !self.is(c) { loop { v.push(self.value()?); self.ws(); if self.is(b',') { self.i += 1 } else { break } } if !self.is(c) { return None } } self.i += 1; return Some(if st { InputValue::Struct(v) } else { InputValue::List(v) }) } }
        for (w, b) in [("true", true), ("false", false)] { if self.s[self.i..].len() >= w.len() && &self.s[self.i..self.i + w.len()] == w.as_bytes() { self.i += w.len(); return Some(InputValue::Bool(b)) } }
        let neg = self.is(b'-'); if neg { self.i += 1; } let mut n = 0u64; let mut m = 0i32; let mut big = false; let mut over = false; let at = self.i; while self.i < self.s.len() && { let c = self.s[self.i]; (c >= b'0') & (c <= b'9') } { let d = self.s[self.i] - b'0'; if self.s.len() > 8 { over |= n > 1_000_000_000_000_000_000; if !over { n = n * 10 + d as u64; } big = true; } else { m = m * 10 + d as i32; } self.i += 1; } if self.i == at { return None } if !big { return Some(InputValue::Number(if neg { -m } else { m } as i64)) } if over | (n > i64::MAX as u64 + neg as u64) { return None } Some(InputValue::Number(if neg { n.wrapping_neg() } else { n } as i64))
    }
}
fn cli(s: String) { let mut r = Ref2 { s: s.as_bytes(), i: 0 }; let mut w = r.value(); r.ws(); if r.i < s.len() { w = None; } if !is_symbolic() { note(&format!("{s:?} {w:?}")); } let g = parse_cli_arg(&s); check(g.is_ok() == w.is_some(), "a text is an argument exactly if the grammar says so"); if let Some(w) = w { check(g.unwrap() == w, "a text is the value the grammar says"); reach("value") } else { reach("none") } }
/// any short text
pub fn h_cli() { let n = choose("len", tier(5, 6)); let b: Vec<u8> = (0..n).map(|_| { let b = u8("c"); assume((b == 9) | (b == 10) | ((b >= 32) & (b < 127))); b }).collect(); cli(text(b)) }
/// longer texts out of parts
pub fn h_cli_parts() { let parts = ["[", "]", "(", ")", "{", "}", ",", " ", "-1", "23", "true", "false", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "tru", "-"]; let mut s = String::new(); for _ in 0..tier(3, 4) { s += pick("part", &parts); } let s = match choose("around", 3) { 0 => s, 1 => format!("[1,{s}]"), _ => format!("{{ {s} ,(5)}}") }; cli(s) }
/// programs as JSON
pub fn h_json() {
    let op = OPS[choose("op", OPS.len())]; let s = shape(op); let w = choose("which", s.len().max(1)); let a: Vec<M31> = s.iter().enumerate().map(|(k, _)| if k == w { M31(felt("a")) } else { M31(pick("b", &[0, P - 1])) }).collect(); let i = make(op, &a);
    let v = serde_json::to_value(i); check(v.is_ok(), "an instruction can be written"); let v = v.unwrap(); let b: Result<Instruction, _> = serde_json::from_value(v); check(b.ok() == Some(i), "an instruction read back is the one written"); reach("end");
}
