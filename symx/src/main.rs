mod exec; mod expr; mod ll; mod mem; mod solver;
use exec::*;
use std::io::{Read, Write};
use std::sync::atomic::Ordering::*;

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll_path = String::new(); let mut harness = String::new(); let mut out = String::from("/dev/stdout"); let mut params = vec![]; let mut workers = 8; let mut budget = 600.0f64; let mut max_viol = 1; let mut trace = false; let mut limit = 2_000_000_000u64; let mut dump = None; let mut list = false;
    let mut i = 0;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll_path = v, "--harness" => harness = v, "--out" => out = v, "--workers" => workers = v.parse().unwrap(), "--budget" => budget = v.parse().unwrap(), "--max-viol" => max_viol = v.parse().unwrap(), "--instr-limit" => limit = v.parse().unwrap(), "--dump" => dump = Some(v),
            "--param" => { params = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(); }
            "--trace" => { trace = true; i += 1; continue; }
            "--list" => { list = true; i += 1; continue; }
            a => { eprintln!("bad arg {}", a); std::process::exit(3); }
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let mut text = String::new();
    std::fs::File::open(&ll_path).expect("ll").read_to_string(&mut text).unwrap();
    let mut ar = expr::Arena::new();
    let mut memory = mem::Mem::new();
    let m: &'static ll::Module = Box::leak(Box::new(ll::load(&text, &mut ar, &mut memory)));
    drop(text);
    let t_load = t0.elapsed().as_secs_f64();
    if list { for f in &m.funcs { println!("{} {}", f.name, f.code.len()); } return; }
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) as *const Shared) };
    let log = std::fs::OpenOptions::new().create(true).append(true).open(&out).expect("log");
    let entry = *m.fidx.get(&harness).unwrap_or_else(|| { eprintln!("no harness {}", harness); std::process::exit(3) });
    let mut ex = Exec::new(m, ar, sh, log);
    ex.params = params; ex.max_workers = workers; ex.max_viol = max_viol; ex.trace = trace; ex.path_limit_instr = limit;
    if let Some(d) = dump { ex.sol.dump = Some(std::fs::File::create(d).unwrap()); }
    ex.deadline = t0 + std::time::Duration::from_secs_f64(budget);
    unsafe { signal(17, 1); setpgid(0, 0); let _ = prctl; } // SIGCHLD ignored: children reap themselves
    let mut fds = [0i32; 2];
    unsafe { pipe(fds.as_mut_ptr()); }
    // the exploring process is a child so that the parent can wait for every worker through the pipe
    extern "C" { fn fork() -> i32; }
    sh.active.store(1, SeqCst);
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { close(fds[0]); }
        let st = ex.initial(memory, entry);
        ex.sol.reset();
        ex.stack.push(st);
        ex.drain();
        std::process::exit(0);
    }
    unsafe { close(fds[1]); let mut b = [0u8; 8]; while read(fds[0], b.as_mut_ptr(), 8) > 0 {} }
    let died = sh.active.load(SeqCst);
    let mut cov = vec![]; for (i, f) in m.funcs.iter().enumerate() { if sh.cover[i.min(32767)].load(Relaxed) != 0 { cov.push((short(&f.name), f.code.len())); } }
    let mut s = String::new();
    let ld = |a: &std::sync::atomic::AtomicU64| a.load(Relaxed);
    s += &format!("S\t{{\"harness\":\"{}\",\"paths\":{},\"forks\":{},\"infeasible\":{},\"instructions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"asserts\":{},\"asserts_symbolic\":{},\"violations\":{},\"inconclusive\":{},\"unknown\":{},\"max_constraints\":{},\"max_path_instructions\":{},\"workers\":{},\"stop\":{},\"died\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"module_functions\":{},\"module_instructions\":{},\"functions_executed\":{}}}\n",
        harness, ld(&sh.paths), ld(&sh.forks), ld(&sh.infeas), ld(&sh.instrs), ld(&sh.queries), ld(&sh.sat), ld(&sh.unsat), ld(&sh.cached), ld(&sh.nanos) as f64 / 1e9, ld(&sh.asserts), ld(&sh.asserts_sym), ld(&sh.viol), ld(&sh.incon), ld(&sh.unknown), ld(&sh.maxcons), ld(&sh.maxinstr), ld(&sh.procs) + 1, sh.stop.load(Relaxed), died, t_load, t0.elapsed().as_secs_f64(), m.funcs.len(), m.n_instr, cov.len());
    cov.sort(); cov.dedup();
    for (n, k) in cov { if n.contains("wat_") { s += &format!("F\t{}\t{}\n", n, k); } }
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&out).unwrap();
    f.write_all(s.as_bytes()).unwrap();
    let code = if ld(&sh.viol) > 0 { 1 } else if ld(&sh.incon) > 0 || died != 0 || sh.stop.load(Relaxed) > 1 { 2 } else { 0 };
    std::process::exit(code);
}
