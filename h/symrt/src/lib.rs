//! Interface between a harness and the symbolic executor (or, natively, the replay runtime).
extern "C" {
    fn symex_var(n: *const u8, l: usize, bits: u32) -> u64;
    fn symex_felt(n: *const u8, l: usize) -> u32;
    fn symex_assume(c: u64);
    fn symex_assert(c: u64, m: *const u8, l: usize);
    fn symex_reach(m: *const u8, l: usize);
    fn symex_observe(v: u64);
    fn symex_panic_ok(f: u64);
    fn symex_fork_loads(f: u64);
    fn symex_is_symbolic() -> u64;
    fn symex_tier() -> u64;
    fn symex_concretize(v: u64) -> u64;
    fn symex_note(m: *const u8, l: usize);
    fn symex_fs_file(p: *const u8, n: usize, d: *const u8, k: usize);
    fn symex_fs_dir(p: *const u8, n: usize);
    fn symex_fs_get(p: *const u8, n: usize, b: *mut u8, cap: usize) -> u64;
    fn symex_fs_count(f: u64) -> u64;
}
pub fn var(n: &str, bits: u32) -> u64 { unsafe { symex_var(n.as_ptr(), n.len(), bits) } }
pub fn u8(n: &str) -> u8 { var(n, 8) as u8 }
pub fn u16(n: &str) -> u16 { var(n, 16) as u16 }
pub fn u32(n: &str) -> u32 { var(n, 32) as u32 }
pub fn u64(n: &str) -> u64 { var(n, 64) }
/// a number below 2^31-1
pub fn felt(n: &str) -> u32 { unsafe { symex_felt(n.as_ptr(), n.len()) } }
pub fn bool(n: &str) -> bool { var(n, 1) != 0 }
pub fn assume(c: bool) { unsafe { symex_assume(c as u64) } }
pub fn check(c: bool, m: &str) { unsafe { symex_assert(c as u64, m.as_ptr(), m.len()) } }
pub fn reach(m: &str) { unsafe { symex_reach(m.as_ptr(), m.len()) } }
pub fn observe(v: u64) { unsafe { symex_observe(v) } }
/// from here on, a load from one of several addresses is a case distinction
pub fn fork_loads(f: bool) { unsafe { symex_fork_loads(f as u64) } }
pub fn panic_ok(f: bool) { unsafe { symex_panic_ok(f as u64) } }
pub fn is_symbolic() -> bool { unsafe { symex_is_symbolic() != 0 } }
/// true under VERIF_TIER=thorough: deeper bounds
pub fn thorough() -> bool { unsafe { symex_tier() != 0 } }
pub fn tier(q: usize, t: usize) -> usize { if thorough() { t } else { q } }
/// forks the path, one per feasible value
pub fn concretize(v: u64) -> u64 { unsafe { symex_concretize(v) } }
pub fn note(m: &str) { unsafe { symex_note(m.as_ptr(), m.len()) } }
/// symbolic value below `n`, then one path per value
pub fn choose(n: &str, k: usize) -> usize { if k <= 1 { return 0; } let v = var(n, 8); assume(v < k as u64); concretize(v) as usize }
pub fn pick<T: Clone>(n: &str, xs: &[T]) -> T { xs[choose(n, xs.len())].clone() }
/// a symbolic byte drawn from a set (stays symbolic)
pub fn byte_in(n: &str, set: &[u8]) -> u8 { let b = u8(n); let mut ok = false; for x in set { ok |= b == *x; } assume(ok); b }
pub fn fs_root() -> String { if is_symbolic() { "/w".into() } else { std::env::var("SYMEX_FSROOT").unwrap_or_default() } }
pub fn fs_file(p: &str, d: &[u8]) { unsafe { symex_fs_file(p.as_ptr(), p.len(), d.as_ptr(), d.len()) } }
pub fn fs_dir(p: &str) { unsafe { symex_fs_dir(p.as_ptr(), p.len()) } }
#[derive(PartialEq, Eq, Debug, Clone)]
pub enum Fs { None, Dir, File(Vec<u8>) }
pub fn fs_get(p: &str) -> Fs { let mut b = vec![0u8; 1 << 14]; let r = unsafe { symex_fs_get(p.as_ptr(), p.len(), b.as_mut_ptr(), b.len()) }; if r == u64::MAX { Fs::None } else if r == u64::MAX - 1 { Fs::Dir } else { b.truncate(r as usize); Fs::File(b) } }
pub fn fs_reverse_order(r: bool) { unsafe { symex_fs_count(0x100 | r as u64); } }
pub fn hash(s: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); } h }
/// build a string from bytes that may be symbolic (all ASCII)
pub fn text(b: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(b) } }

#[macro_export]
macro_rules! entry {
    ($($m:ident :: $n:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $n() { $m::$n() } )*
        fn main() {
            let a: Vec<String> = std::env::args().collect();
            $( if a.get(1).map(|x| x.as_str()) == Some(stringify!($n)) { $n(); return; } )*
            println!("{}", [$(stringify!($n)),*].join("\n"));
        }
    };
}
