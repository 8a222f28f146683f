mod exec; mod expr; mod fsmodel; mod ir; mod mem; mod solver;
use exec::*;
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut MAXP: i64 = 1;
static mut LAST_FORK: Option<Instant> = None;
static mut CHILD: bool = false;
fn sh() -> &'static Shared { unsafe { &*SHARED } }

fn on_push(ex: &mut Ex) {
    unsafe {
        if sh().active.load(SeqCst) >= MAXP { return; }
        #[allow(static_mut_refs)]
        if let Some(t) = LAST_FORK { if t.elapsed() < Duration::from_millis(15) { return; } }
        if sh().active.fetch_add(1, SeqCst) >= MAXP { sh().active.fetch_sub(1, SeqCst); return; }
        LAST_FORK = Some(Instant::now());
        let pid = libc::fork();
        if pid < 0 { sh().active.fetch_sub(1, SeqCst); return; }
        if pid == 0 {
            // child: takes the oldest pending state (the largest subtree), drops everything else
            CHILD = true;
            LAST_FORK = Some(Instant::now());
            let st = ex.work.remove(0);
            ex.work.clear();
            ex.work.push(st);
            ex.abandon = true;
            ex.st = Stats::default();
            ex.out.clear();
            ex.sv.queries = 0; ex.sv.hits = 0; ex.sv.time = 0.0; ex.sv.unknowns = 0; ex.sv.slow = 0.0;
        } else { ex.work.remove(0); }
    }
}

fn flush(ex: &mut Ex, path: &str, last: bool) {
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(path).unwrap();
    let mut b = String::new();
    for l in ex.out.drain(..) { b.push_str(&l); b.push('\n'); }
    if last {
        let st = &ex.st;
        let funcs: Vec<String> = st.funcs.iter().map(|s| js(&short(s))).collect();
        let reach: Vec<String> = st.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        b.push_str(&format!("{{\"kind\":\"stats\",\"paths\":{},\"done\":{},\"pruned\":{},\"panics_ok\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_sym\":{},\"queries\":{},\"hits\":{},\"solver_s\":{:.4},\"unknowns\":{},\"slow\":{:.3},\"nodes\":{},\"funcs\":[{}],\"reach\":{{{}}}}}\n",
            st.paths, st.done, st.pruned, st.panics_ok, st.forks, st.steps, st.asserts, st.asserts_sym, ex.sv.queries, ex.sv.hits, ex.sv.time, ex.sv.unknowns, ex.sv.slow, ex.p.size(), funcs.join(","), reach.join(",")));
    }
    f.write_all(b.as_bytes()).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 { eprintln!("usage: symex IR.ll ENTRY OUT.jsonl [procs] [seconds]"); std::process::exit(2); }
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(move || real_main(args)).unwrap();
    h.join().unwrap();
}
fn real_main(args: Vec<String>) {
    let procs: i64 = args.get(4).and_then(|x| x.parse().ok()).unwrap_or(1);
    let secs: u64 = args.get(5).and_then(|x| x.parse().ok()).unwrap_or(600);
    let t0 = Instant::now();
    let f = std::fs::File::open(&args[1]).unwrap();
    let len = f.metadata().unwrap().len() as usize;
    use std::os::fd::AsRawFd;
    let src: &'static str = unsafe { let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ, libc::MAP_PRIVATE, f.as_raw_fd(), 0); std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, len)) };
    let m = ir::Module::load(src);
    unsafe { SHARED = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Shared; MAXP = procs; }
    sh().active.store(1, SeqCst);
    let mut ex = Ex::new(m, 60_000);
    ex.deadline = t0 + Duration::from_secs(secs);
    if procs > 1 { ex.on_push = Some(on_push); }
    ex.trace = std::env::var("SYMEX_TRACE").is_ok();
    if std::env::var("SYMEX_PROF").is_ok() { ex.prof = Some(Default::default()); }
    let verbose = std::env::var("SYMEX_V").is_ok();
    let _ = std::fs::remove_file(&args[3]);
    let s0 = ex.init_state(&args[2]);
    if verbose { eprintln!("loaded in {:.2}s", t0.elapsed().as_secs_f64()); }
    ex.work.push(s0);
    while let Some(mut s) = ex.work.pop() {
        if Instant::now() > ex.deadline { let n = ex.work.len() + 1; ex.out.push(format!("{{\"kind\":\"error\",\"msg\":\"TIMEOUT: {} states unexplored\",\"inputs\":[],\"notes\":[]}}", n)); break; }
        let t = Instant::now();
        let e = ex.run(&mut s);
        if verbose { eprintln!("[{}] path {} end {:?} steps {} depth {} pc {} {:.2}s work {}", std::process::id(), ex.st.paths, e, s.steps, s.depth, s.pc.len(), t.elapsed().as_secs_f64(), ex.work.len()); }
        if ex.abandon { ex.abandon = false; continue; }
        ex.finish(&s, e);
        if ex.out.len() > 50 { flush(&mut ex, &args[3], false); }
    }
    flush(&mut ex, &args[3], true);
    if let Some(p) = &ex.prof { let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (f, n) in v.iter().take(40) { eprintln!("{:>10} {}", n, short(&ex.m.funcs[**f as usize].name)); } }
    sh().active.fetch_sub(1, SeqCst);
    unsafe {
        // wait for children, so that the root ends last
        loop { let mut st = 0; let r = libc::waitpid(-1, &mut st, 0); if r <= 0 { break; }
            if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) { let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&args[3]).unwrap(); let _ = f.write_all(format!("{{\"kind\":\"error\",\"msg\":\"worker process died (status {})\",\"inputs\":[],\"notes\":[]}}\n", st).as_bytes()); if !(libc::WIFEXITED(st)) { sh().active.fetch_sub(1, SeqCst); } } }
        if CHILD { libc::_exit(0); }
    }
    if verbose { eprintln!("total {:.2}s z3 {}", t0.elapsed().as_secs_f64(), solver::z3_version()); }
}
