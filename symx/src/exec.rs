//! The symbolic executor.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use std::io::Write;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

#[derive(Clone, Copy, Default, Debug)]
pub struct V { pub c: u64, pub e: E }

#[derive(Clone, Copy)]
struct Fr { f: u32, ip: u32, base: u32, d: u32, sp: u64 }

#[derive(Clone, Copy)]
enum In { Var(u32), Pick(u64) }

#[derive(Clone)]
pub struct State {
    mem: Mem, regs: Vec<V>, frames: Vec<Fr>, sp: u64, heap: u64,
    cons: Vec<E>, model: Vec<u64>, inputs: Vec<In>, vars: Vec<E>, rng: Vec<(u64, u64)>, pinned: u128,
    notes: Vec<(u64, u64)>, icount: u64, soft: u64, depth: u32, tsd: u64,
}

pub enum End { Done, Infeasible, Stop, Crash(&'static str, String), Incon(String) }

#[repr(C)]
pub struct Shared {
    pub active: AtomicU32, pub stop: AtomicU32, pub paths: AtomicU64, pub forks: AtomicU64, pub infeas: AtomicU64, pub instrs: AtomicU64,
    pub queries: AtomicU64, pub sat: AtomicU64, pub unsat: AtomicU64, pub cached: AtomicU64, pub nanos: AtomicU64,
    pub asserts: AtomicU64, pub asserts_sym: AtomicU64, pub viol: AtomicU64, pub incon: AtomicU64, pub maxcons: AtomicU64, pub maxinstr: AtomicU64, pub procs: AtomicU64, pub unknown: AtomicU64,
    pub cover: [std::sync::atomic::AtomicU8; 32768],
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum X { Malloc, Calloc, Realloc, Free, PosixMemalign, Bcmp, Memcmp, Strlen, Memchr, Zero, One, MinusOne, Abort, Write, Getenv, TsdSet, TsdGet, Errno, Clock, Syscall,
    SymU8, SymU32, Pick, Assume, Assert, Reach, Note, Concr, Param, Check, Soft, IsSym, Getrandom, Unknown }

const HEAP: u64 = 0x1000_0000;
const HEAP_MAX: u64 = 0x3000_0000;
const STACK_TOP: u64 = 0x4000_0000;
const STACK_SZ: u64 = 16 << 20;

pub struct Exec {
    pub m: &'static Module,
    pub ar: Arena,
    pub sol: Solver,
    /// truth tables of conditions over a single byte variable, and the solver's verdicts by truth table
    tables: FxMap<E, [u64; 4]>, verdicts: FxMap<([u64; 4], [u64; 4]), Option<u64>>,
    pub stack: Vec<State>,
    pub sh: &'static Shared,
    pub log: std::fs::File,
    ext: Vec<X>,
    pub path_limit_instr: u64,
    pub max_workers: u32,
    pub max_viol: u64,
    pub params: Vec<u64>,
    pub deadline: std::time::Instant,
    pub is_child: bool,
    pub keep_notes: bool,
    pub trace: bool,
    reached: std::collections::HashSet<String>,
    tb: Vec<u8>, ts: Vec<E>, tb2: Vec<u8>, ts2: Vec<E>,
    pub crash_is_ok: bool,
    seen_msgs: FxMap<String, u32>,
}

macro_rules! fault { ($e:expr) => { match $e { Ok(v) => v, Err(Fault(a)) => return End::Crash("fault", format!("memory fault at {:#x}", a)) } } }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

impl Exec {
    pub fn new(m: &'static Module, ar: Arena, sh: &'static Shared, log: std::fs::File) -> Self {
        let ext = m.ext.iter().map(|n| match n.as_str() {
            "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc, "free" => X::Free, "posix_memalign" => X::PosixMemalign,
            "bcmp" => X::Bcmp, "memcmp" => X::Memcmp, "strlen" => X::Strlen, "memchr" => X::Memchr,
            "pthread_key_create" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "sched_yield" | "close" | "munmap" | "pthread_setspecific_" | "_Unwind_Backtrace" | "dl_iterate_phdr" | "pthread_attr_init" | "pthread_attr_destroy" | "sigaction" | "getpid" => X::Zero,
            "gettid" => X::One, "open64" | "stat64" | "statx" | "fstat64" => X::MinusOne,
            "abort" | "_exit" | "exit" | "_Unwind_RaiseException" | "_Unwind_Resume" => X::Abort, "write" | "writev" => X::Write, "getenv" | "getcwd" | "realpath" | "secure_getenv" => X::Getenv,
            "pthread_setspecific" => X::TsdSet, "pthread_getspecific" => X::TsdGet, "__errno_location" => X::Errno, "clock_gettime" => X::Clock, "syscall" => X::Syscall, "getrandom" => X::Getrandom,
            "sym_u8" => X::SymU8, "sym_u32" => X::SymU32, "sym_pick" => X::Pick, "sym_assume" => X::Assume, "sym_assert" => X::Assert, "sym_reach" => X::Reach, "sym_note" => X::Note, "sym_concretize" => X::Concr, "sym_param" => X::Param, "sym_check" => X::Check, "sym_soft" => X::Soft, "sym_is_symbolic" => X::IsSym,
            _ => X::Unknown,
        }).collect();
        Exec { m, ar, sol: Solver::new(), tables: Default::default(), verdicts: Default::default(), stack: vec![], sh, log, ext, path_limit_instr: 2_000_000_000, max_workers: 8, max_viol: 1, params: vec![], deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600), is_child: false, keep_notes: true, trace: false, reached: Default::default(), tb: vec![], ts: vec![], tb2: vec![], ts2: vec![], crash_is_ok: false, seen_msgs: Default::default() }
    }
    pub fn initial(&self, mut mem: Mem, entry: u32) -> State {
        mem.map(STACK_TOP - STACK_SZ, STACK_SZ);
        mem.map(HEAP, 1 << 20);
        let f = &self.m.funcs[entry as usize];
        State { mem, regs: vec![V::default(); f.nslots as usize + 64], frames: vec![Fr { f: entry, ip: 0, base: 0, d: 0, sp: STACK_TOP - 64 }], sp: STACK_TOP - 64, heap: HEAP, cons: vec![], model: vec![], inputs: vec![], vars: vec![], rng: vec![], pinned: 0, notes: vec![], icount: 0, soft: 0, depth: 0, tsd: 0 }
    }
    #[inline] fn sv(&mut self, v: V, w: u32) -> E { if v.e != 0 { v.e } else { self.ar.c(w, v.c as u128) } }
    #[inline] fn ve(&self, e: E) -> V { let n = self.ar.n(e); if n.op == Op::Const && n.w <= 64 { V { c: n.k as u64, e: 0 } } else { V { c: 0, e } } }

    fn table(&mut self, e: E, id: u32) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) { return *t; }
        let mut t = [0u64; 4];
        let mut md = vec![0u64; id as usize + 1];
        for v in 0..256u64 { md[id as usize] = v; if self.ar.eval(e, &md) == 1 { t[v as usize >> 6] |= 1 << (v & 63); } }
        self.tables.insert(e, t);
        t
    }
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut sup = self.ar.sup[c as usize];
        let mut used = vec![false; st.cons.len()];
        let mut out = vec![c];
        loop {
            let mut ch = false;
            for (i, &k) in st.cons.iter().enumerate() { if !used[i] { let s = self.ar.sup[k as usize]; if s & sup != 0 { used[i] = true; out.push(k); if s & !sup != 0 { sup |= s; ch = true; } } } }
            if !ch { break; }
        }
        out
    }
    /// Rewrite the comparisons of one term with constants into its tightest pair of bounds (equivalent, and it
    /// makes queries of different paths coincide, so that a verdict can be reused).
    fn tighten(&mut self, cs: &mut Vec<E>) {
        if cs.len() < 4 { return; }
        // (term, lo, hi)
        let mut b: Vec<(E, u128, u128)> = vec![];
        let mut rest: Vec<E> = vec![];
        for &k in cs.iter() {
            let n = *self.ar.n(k);
            if matches!(n.op, Op::Ult | Op::Ule) {
                let strict = (n.op == Op::Ult) as u128;
                let (t, lo, hi) = if let Some(y) = self.ar.is_c(n.b) { if y < strict { rest.push(k); continue } (n.a, 0, y - strict) }
                    else if let Some(x) = self.ar.is_c(n.a) { (n.b, x + strict, mask(self.ar.w(n.b))) } else { rest.push(k); continue };
                match b.iter_mut().find(|e| e.0 == t) { Some(e) => { e.1 = e.1.max(lo); e.2 = e.2.min(hi); } None => b.push((t, lo, hi)) }
            } else { rest.push(k) }
        }
        if b.is_empty() { return; }
        // disequalities with a constant outside (or at the end of) the interval
        loop {
            let mut ch = false;
            let mut i = 0;
            while i < rest.len() {
                let n = *self.ar.n(rest[i]);
                let mut drop = false;
                if n.op == Op::Xor && self.ar.is_c(n.b) == Some(1) {
                    let q = *self.ar.n(n.a);
                    if q.op == Op::Eq { if let Some(y) = self.ar.is_c(q.b) { if let Some(e) = b.iter_mut().find(|e| e.0 == q.a) {
                        if y < e.1 || y > e.2 { drop = true } else if y == e.1 && e.1 < e.2 { e.1 += 1; drop = true; ch = true } else if y == e.2 && e.1 < e.2 { e.2 -= 1; drop = true; ch = true }
                    } } }
                }
                if drop { rest.swap_remove(i); } else { i += 1 }
            }
            if !ch { break; }
        }
        for (t, lo, hi) in b {
            let w = self.ar.w(t);
            if lo > 0 { let k = self.ar.c(w, lo); let e = self.ar.bin(Op::Ule, k, t); rest.push(e); }
            if hi < mask(w) { let k = self.ar.c(w, hi); let e = self.ar.bin(Op::Ule, t, k); rest.push(e); }
        }
        *cs = rest;
    }
    /// Is pc ∧ c satisfiable?  Returns the full updated model if so.
    fn feasible(&mut self, st: &State, c: E) -> Result<Option<Vec<u64>>, End> {
        if let Some(k) = self.ar.is_c(c) { return Ok(if k == 1 { Some(st.model.clone()) } else { None }); }
        // every variable of c has a single possible value: the model's
        if self.ar.sup[c as usize] & !st.pinned == 0 { return Ok(if self.ar.eval(c, &st.model) == 1 { Some(st.model.clone()) } else { None }); }
        let nc = self.ar.not(c);
        for &k in st.cons.iter().rev() { if k == nc { return Ok(None); } }
        let mut cs = self.slice(st, c);
        // equivalent queries share a verdict: over one byte variable, equivalence is equality of truth tables
        let mut key = None;
        let sup = cs.iter().fold(0u128, |s, &e| s | self.ar.sup[e as usize]);
        if sup.count_ones() == 1 {
            let id = sup.trailing_zeros();
            if self.ar.w(st.vars[id as usize]) == 8 {
                let mut pc = [u64::MAX; 4];
                for i in 1..cs.len() { let t = self.table(cs[i], id); for j in 0..4 { pc[j] &= t[j] } }
                let k = (pc, self.table(cs[0], id));
                if let Some(v) = self.verdicts.get(&k) {
                    self.sol.cached += 1;
                    return Ok(v.map(|v| { let mut md = st.model.clone(); md[id as usize] = v; md }));
                }
                key = Some((k, id));
            }
        }
        self.tighten(&mut cs);
        if cs.iter().any(|&e| self.ar.is_c(e) == Some(0)) { return Ok(None); }
        match self.sol.check(&self.ar, &mut cs) {
            (Res::Unsat, _) => { if let Some((k, _)) = key { self.verdicts.insert(k, None); } Ok(None) }
            (Res::Sat, m) => { let mut md = st.model.clone(); for (i, v) in m { if md.len() <= i as usize { md.resize(i as usize + 1, 0); } md[i as usize] = v; } if let Some((k, id)) = key { self.verdicts.insert(k, Some(md[id as usize])); } Ok(Some(md)) }
            _ => { self.sh.unknown.fetch_add(1, Relaxed); Err(End::Incon("solver returned unknown".into())) }
        }
    }
    fn add(&mut self, st: &mut State, c: E) {
        let n = *self.ar.n(c);
        if n.op == Op::Const { return; }
        if n.op == Op::And { self.add(st, n.a); self.add(st, n.b); return; }
        if !st.cons.contains(&c) { st.cons.push(c); }
        // variables forced to a single value
        let (t, lo, hi) = match n.op {
            Op::Eq => if let Some(y) = self.ar.is_c(n.b) { (n.a, y, y) } else { return },
            Op::Ult | Op::Ule => { let s = (n.op == Op::Ult) as u128; if let Some(y) = self.ar.is_c(n.b) { if y < s { return } (n.a, 0, y - s) } else if let Some(x) = self.ar.is_c(n.a) { (n.b, x + s, u64::MAX as u128) } else { return } }
            _ => return,
        };
        let v = *self.ar.n(t);
        if v.op != Op::Var || v.w > 64 { return; }
        let id = v.a as usize;
        if st.rng.len() <= id { st.rng.resize(id + 1, (0, u64::MAX)); }
        let r = &mut st.rng[id];
        r.0 = r.0.max(lo.min(u64::MAX as u128) as u64); r.1 = r.1.min(hi.min(u64::MAX as u128) as u64);
        if r.0 == r.1 { st.pinned |= 1 << id; }
    }
    /// Decide a symbolic condition, forking when both sides are feasible. The forked state re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: E) -> Result<bool, End> {
        if let Some(k) = self.ar.is_c(c) { return Ok(k == 1); }
        let nc = self.ar.not(c);
        for &k in st.cons.iter().rev() { if k == c { return Ok(true); } if k == nc { return Ok(false); } }
        let side = self.ar.eval(c, &st.model) == 1;
        let (this, other) = if side { (c, nc) } else { (nc, c) };
        match self.feasible(st, other)? {
            None => {}
            Some(md) => {
                let mut o = st.clone();
                self.add(&mut o, other);
                o.model = md; o.depth += 1;
                self.push(o);
                st.depth += 1;
                self.add(st, this);
            }
        }
        Ok(side)
    }
    fn concretize(&mut self, st: &mut State, e: E) -> Result<u64, End> {
        if let Some(k) = self.ar.is_c(e) { return Ok(k as u64); }
        let v = self.ar.eval(e, &st.model);
        let eq = self.ar.eqk(e, v);
        if self.ar.is_c(eq) == Some(1) || st.cons.contains(&eq) { return Ok(v as u64); }
        let ne = self.ar.not(eq);
        if let Some(md) = self.feasible(st, ne)? {
            let mut o = st.clone();
            self.add(&mut o, ne); o.model = md; o.depth += 1;
            self.push(o);
        }
        self.add(st, eq);
        Ok(v as u64)
    }
    fn push(&mut self, o: State) {
        self.sh.forks.fetch_add(1, Relaxed);
        self.stack.push(o);
        self.maybe_spawn();
    }
    fn maybe_spawn(&mut self) {
        while self.stack.len() > 1 && self.sh.active.load(Relaxed) < self.max_workers {
            let a = self.sh.active.fetch_add(1, SeqCst);
            if a >= self.max_workers { self.sh.active.fetch_sub(1, SeqCst); break; }
            extern "C" { fn fork() -> i32; }
            let pid = unsafe { fork() };
            if pid == 0 {
                self.is_child = true;
                let s0 = self.stack.remove(0);
                self.stack.clear();
                self.stack.push(s0);
                self.sol.reset();
                self.sol.queries = 0; self.sol.sat = 0; self.sol.unsat = 0; self.sol.cached = 0; self.sol.nanos = 0; self.sol.dump = None;
                self.sh.procs.fetch_add(1, Relaxed);
                self.drain();
                std::process::exit(0);
            } else if pid < 0 { self.sh.active.fetch_sub(1, SeqCst); break; }
            else { self.stack.remove(0); }
        }
    }
    pub fn line(&mut self, s: String) { let _ = self.log.write_all((s + "\n").as_bytes()); }
    fn inputs_str(&mut self, st: &State) -> String {
        st.inputs.iter().map(|i| match i { In::Var(v) => st.model.get(*v as usize).copied().unwrap_or(0).to_string(), In::Pick(k) => k.to_string() }).collect::<Vec<_>>().join(",")
    }
    fn notes_str(&mut self, st: &State) -> String {
        let mut out = vec![];
        for &(a, n) in &st.notes { let mut b = vec![]; for i in 0..n { match st.mem.byte(a + i) { Ok((c, 0)) => b.push(c), Ok((_, e)) => b.push(self.ar.eval(e, &st.model) as u8), _ => {} } } out.push(hex(&b)); }
        out.join(";")
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        let n = { let c = self.seen_msgs.entry(format!("{kind}{msg}")).or_insert(0); *c += 1; *c };
        let inp = self.inputs_str(st); let notes = self.notes_str(st);
        if n <= 400 { self.line(format!("V\t{}\t{}\t{}\t{}", kind, msg.replace(['\t', '\n'], " "), inp, notes)); }
        let v = self.sh.viol.fetch_add(1, SeqCst) + 1;
        if v >= self.max_viol { self.sh.stop.fetch_max(1, SeqCst); }
    }
    fn backtrace(&self, st: &State) -> String {
        st.frames.iter().rev().take(14).map(|f| self.m.funcs[f.f as usize].name.clone()).collect::<Vec<_>>().join(" < ")
    }
    /// explore everything on the stack
    pub fn drain(&mut self) {
        while let Some(mut st) = self.stack.pop() {
            if self.sh.stop.load(Relaxed) != 0 { break; }
            if std::time::Instant::now() > self.deadline { self.sh.stop.fetch_max(3, SeqCst); break; }
            let i0 = st.icount;
            let end = self.run(&mut st);
            self.sh.instrs.fetch_add(st.icount - i0, Relaxed);
            self.sh.maxinstr.fetch_max(st.icount, Relaxed);
            self.sh.maxcons.fetch_max(st.cons.len() as u64, Relaxed);
            match end {
                End::Done => { self.sh.paths.fetch_add(1, Relaxed); if self.trace { let i = self.inputs_str(&st); let n = self.notes_str(&st); self.line(format!("P\t{}\t{}\t{}", st.icount, i, n)); } }
                End::Infeasible => { self.sh.infeas.fetch_add(1, Relaxed); }
                End::Stop => {}
                End::Crash(k, m) => { self.sh.paths.fetch_add(1, Relaxed); let bt = self.backtrace(&st); let s = st; self.violation(&s, k, &m); self.line(format!("B\t{}", bt)); }
                End::Incon(m) => { let n = self.sh.incon.fetch_add(1, Relaxed); if n < 40 { let bt = self.backtrace(&st); let i = self.inputs_str(&st); let nn = self.notes_str(&st); self.line(format!("I\t{}\t{}\t{}\t{}", m.replace(['\t', '\n'], " "), i, nn, bt)); } }
            }
        }
        let s = self.sh;
        s.queries.fetch_add(self.sol.queries, Relaxed); s.sat.fetch_add(self.sol.sat, Relaxed); s.unsat.fetch_add(self.sol.unsat, Relaxed); s.cached.fetch_add(self.sol.cached, Relaxed); s.nanos.fetch_add(self.sol.nanos, Relaxed);
        s.active.fetch_sub(1, SeqCst);
    }

    fn load(&mut self, st: &State, a: u64, w: u32) -> Result<V, Fault> {
        let n = (w as usize + 7) / 8;
        if w <= 64 { if let Some(v) = st.mem.read(a, n)? { return Ok(V { c: if w % 8 != 0 { v & mask(w) as u64 } else { v }, e: 0 }); } }
        let mut acc: E = 0;
        for i in 0..n {
            let (b, e) = st.mem.byte(a + i as u64)?;
            let e = if e != 0 { e } else { self.ar.c(8, b as u128) };
            acc = if acc == 0 { e } else { self.ar.concat(e, acc) };
        }
        if w % 8 != 0 { acc = self.ar.extract(acc, 0, w); }
        Ok(self.ve(acc))
    }
    fn store(&mut self, st: &mut State, a: u64, w: u32, v: V) -> Result<(), Fault> {
        let n = (w as usize + 7) / 8;
        if v.e == 0 { return st.mem.write(a, n, v.c); }
        let mut e = v.e;
        if w % 8 != 0 { e = self.ar.zext(e, n as u32 * 8); }
        for i in 0..n {
            let b = self.ar.extract(e, 8 * i as u32, 8);
            match self.ar.is_c(b) { Some(k) => st.mem.wbyte(a + i as u64, k as u8, 0)?, None => st.mem.wbyte(a + i as u64, 0, b)? }
        }
        Ok(())
    }
    /// table look-up through a symbolic address that depends on one symbolic byte: if-then-else over its feasible values
    fn load_ite(&mut self, st: &State, addr: E, w: u32) -> Option<V> {
        let sup = self.ar.sup[addr as usize];
        if sup.count_ones() != 1 { return None; }
        let id = sup.trailing_zeros();
        let var = st.vars[id as usize];
        let vw = self.ar.w(var);
        if vw > 8 { return None; }
        let cons: Vec<E> = st.cons.iter().copied().filter(|&c| self.ar.sup[c as usize] == sup).collect();
        let mut model = st.model.clone();
        if model.len() <= id as usize { model.resize(id as usize + 1, 0); }
        let mut groups: Vec<(E, Vec<u64>)> = vec![];
        let mut gi: FxMap<E, usize> = Default::default();
        'v: for v in 0..(1u64 << vw) {
            model[id as usize] = v;
            for &c in &cons { if self.ar.eval(c, &model) != 1 { continue 'v; } }
            let a = self.ar.eval(addr, &model) as u64;
            let r = match self.load(st, a, w) { Ok(r) => r, Err(_) => return None };
            let e = self.sv(r, w);
            let i = *gi.entry(e).or_insert_with(|| { groups.push((e, vec![])); groups.len() - 1 });
            groups[i].1.push(v);
        }
        if groups.is_empty() || groups.len() > 64 { return None; }
        groups.sort_by_key(|g| g.1.len());
        let (mut acc, _) = groups.pop().unwrap();
        for (e, vs) in groups {
            // ranges
            let mut cond: E = self.ar.ff();
            let mut i = 0;
            while i < vs.len() {
                let mut j = i; while j + 1 < vs.len() && vs[j + 1] == vs[j] + 1 { j += 1; }
                let r = if i == j { self.ar.eqk(var, vs[i] as u128) } else { let lo = self.ar.c(vw, vs[i] as u128); let hi = self.ar.c(vw, vs[j] as u128); let x = self.ar.bin(Op::Ule, lo, var); let y = self.ar.bin(Op::Ule, var, hi); self.ar.and(x, y) };
                cond = self.ar.or(cond, r);
                i = j + 1;
            }
            acc = self.ar.ite(cond, e, acc);
        }
        Some(self.ve(acc))
    }

    fn icmp_sym(&mut self, p: Pred, w: u32, a: V, b: V) -> E {
        let (x, y) = (self.sv(a, w), self.sv(b, w));
        match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y), Pred::Ne => { let e = self.ar.bin(Op::Eq, x, y); self.ar.not(e) }
            Pred::Ugt => self.ar.bin(Op::Ult, y, x), Pred::Uge => self.ar.bin(Op::Ule, y, x), Pred::Ult => self.ar.bin(Op::Ult, x, y), Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x), Pred::Sge => self.ar.bin(Op::Sle, y, x), Pred::Slt => self.ar.bin(Op::Slt, x, y), Pred::Sle => self.ar.bin(Op::Sle, x, y),
        }
    }

    fn malloc(&mut self, st: &mut State, n: u64, al: u64) -> u64 {
        let al = al.max(16);
        let p = (st.heap + 16 + al - 1) / al * al;
        st.mem.map(p - 16, n + 32);
        let _ = st.mem.write(p - 16, 8, n);
        st.heap = p + n;
        p
    }

    pub fn run(&mut self, st: &mut State) -> End {
        let m = self.m;
        let mut tick = 0u64;
        'frame: loop {
            let fr = *st.frames.last().unwrap();
            let f = &m.funcs[fr.f as usize];
            let base = fr.base as usize;
            let mut ip = fr.ip as usize;
            macro_rules! get { ($o:expr) => { match $o { O::R(i) => st.regs[base + i as usize], O::K(k) => V { c: k, e: 0 }, O::W(e) => V { c: 0, e } } } }
            macro_rules! set { ($d:expr, $v:expr) => { { let v = $v; st.regs[base + $d as usize] = v; } } }
            macro_rules! tr { ($e:expr) => { match $e { Ok(v) => v, Err(e) => return e } } }
            macro_rules! save { () => { st.frames.last_mut().unwrap().ip = ip as u32 } }
            // concretise an operand (writing the value back to its register)
            macro_rules! conc { ($o:expr) => { { let v = get!($o); if v.e == 0 { v.c } else { save!(); let k = tr!(self.concretize(st, v.e)); if let O::R(i) = $o { if self.ar.w(v.e) <= 64 { st.regs[base + i as usize] = V { c: k, e: 0 }; } } k } } } }
            macro_rules! goto { ($e:expr) => { { let ed = &f.edges[$e as usize];
                if ed.overlap { let vals: Vec<V> = ed.copies.iter().map(|(_, o)| get!(*o)).collect(); for ((d, _), v) in ed.copies.iter().zip(vals) { set!(*d, v); } }
                else { for (d, o) in ed.copies.iter() { let v = get!(*o); set!(*d, v); } }
                ip = ed.to as usize; continue; } } }
            loop {
                tick += 1; st.icount += 1;
                if tick & 0xfffff == 0 {
                    if self.sh.stop.load(Relaxed) != 0 { return End::Stop; }
                    if std::time::Instant::now() > self.deadline { self.sh.stop.fetch_max(3, SeqCst); return End::Stop; }
                    if st.icount > self.path_limit_instr { return End::Crash("hang", format!("no termination within {} instructions", self.path_limit_instr)); }
                    save!(); self.maybe_spawn();
                }
                match &f.code[ip] {
                    I::Bin { op, w, d, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        if x.e == 0 && y.e == 0 {
                            let r = if *w == 64 { match op { Op::Add => x.c.wrapping_add(y.c), Op::Sub => x.c.wrapping_sub(y.c), Op::And => x.c & y.c, Op::Or => x.c | y.c, Op::Xor => x.c ^ y.c, Op::Mul => x.c.wrapping_mul(y.c), Op::Shl => if y.c < 64 { x.c << y.c } else { 0 }, Op::LShr => if y.c < 64 { x.c >> y.c } else { 0 }, _ => fold(*op, 64, x.c as u128, y.c as u128) as u64 } }
                                else { fold(*op, *w, x.c as u128, y.c as u128) as u64 };
                            set!(*d, V { c: r, e: 0 });
                        } else { let (p, q) = (self.sv(x, *w), self.sv(y, *w)); let r = self.ar.bin(*op, p, q); let v = self.ve(r); set!(*d, v); }
                    }
                    I::Icmp { p, w, d, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        if x.e == 0 && y.e == 0 {
                            let (x, y) = (x.c, y.c);
                            let sx = |v: u64| if *w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
                            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx(x) > sx(y), Pred::Sge => sx(x) >= sx(y), Pred::Slt => sx(x) < sx(y), Pred::Sle => sx(x) <= sx(y) };
                            set!(*d, V { c: r as u64, e: 0 });
                        } else { let e = self.icmp_sym(*p, *w, x, y); let v = self.ve(e); set!(*d, v); }
                    }
                    I::Cast { k, f: fw, t, d, a } => {
                        let x = get!(*a);
                        if x.e == 0 && *t <= 64 {
                            let r = match k { Cast::Trunc => x.c & mask(*t) as u64, Cast::Zext => x.c, Cast::Sext => (sext128(x.c as u128, *fw) as u64) & mask(*t) as u64 };
                            set!(*d, V { c: r, e: 0 });
                        } else { let e = self.sv(x, *fw); let r = match k { Cast::Trunc => self.ar.extract(e, 0, *t), Cast::Zext => self.ar.zext(e, *t), Cast::Sext => self.ar.sext(e, *t) }; let v = self.ve(r); set!(*d, v); }
                    }
                    I::Multi(is) => {
                        for i in is.iter() { match i {
                            I::Bin { op, w, d, a, b } => { let (x, y) = (get!(*a), get!(*b)); if x.e == 0 && y.e == 0 { set!(*d, V { c: fold(*op, *w, x.c as u128, y.c as u128) as u64, e: 0 }); } else { let (p, q) = (self.sv(x, *w), self.sv(y, *w)); let r = self.ar.bin(*op, p, q); let v = self.ve(r); set!(*d, v); } }
                            I::Icmp { p, w, d, a, b } => { let (x, y) = (get!(*a), get!(*b)); let e = self.icmp_sym(*p, *w, x, y); let v = self.ve(e); set!(*d, v); }
                            I::Cast { k, f: fw, t, d, a } => { let x = get!(*a); let e = self.sv(x, *fw); let r = match k { Cast::Trunc => self.ar.extract(e, 0, *t), Cast::Zext => self.ar.zext(e, *t), Cast::Sext => self.ar.sext(e, *t) }; let v = self.ve(r); set!(*d, v); }
                            I::Select { d, c, w, a, b, .. } => { let cv = get!(*c); let (x, y) = (get!(a[0]), get!(b[0])); let v = if cv.e == 0 { if cv.c & 1 == 1 { x } else { y } } else { let (p, q) = (self.sv(x, w[0]), self.sv(y, w[0])); let r = self.ar.ite(cv.e, p, q); self.ve(r) }; set!(*d, v); }
                            _ => return End::Incon("multi".into()),
                        } }
                    }
                    I::Copy1 { d, a } => { let v = get!(*a); set!(*d, v); }
                    I::Copy { d, a } => { if a.len() == 1 { let v = get!(a[0]); set!(*d, v); } else { let vs: Vec<V> = a.iter().map(|o| get!(*o)).collect(); for (i, v) in vs.into_iter().enumerate() { set!(*d + i as u32, v); } } }
                    I::Bitcast { d, src, dst } => {
                        let mut acc: E = 0; let mut k = 0u128; let mut off = 0; let mut allc = true;
                        for (o, w) in src.iter() { let v = get!(*o); if v.e != 0 { allc = false; break; } k |= (v.c as u128) << off; off += w; }
                        if allc && off <= 128 { let mut off = 0; for (i, w) in dst.iter().enumerate() { let x = (k >> off) & mask(*w); off += w; let v = if *w > 64 { V { c: 0, e: self.ar.c(*w, x) } } else { V { c: x as u64, e: 0 } }; set!(*d + i as u32, v); } }
                        else {
                            for (o, w) in src.iter() { let v = get!(*o); let e = self.sv(v, *w); acc = if acc == 0 { e } else { self.ar.concat(e, acc) }; }
                            let mut off = 0; for (i, w) in dst.iter().enumerate() { let x = self.ar.extract(acc, off, *w); off += w; let v = self.ve(x); set!(*d + i as u32, v); }
                        }
                    }
                    I::Select { d, c, ptr, w, a, b } => {
                        let cv = get!(*c);
                        if cv.e == 0 { let s = if cv.c & 1 == 1 { a } else { b }; if s.len() == 1 { let v = get!(s[0]); set!(*d, v); } else { let vs: Vec<V> = s.iter().map(|o| get!(*o)).collect(); for (i, v) in vs.into_iter().enumerate() { set!(*d + i as u32, v); } } }
                        else if *ptr || w.len() > 1 { save!(); let t = tr!(self.decide(st, cv.e)); let s = if t { a } else { b }; let vs: Vec<V> = s.iter().map(|o| get!(*o)).collect(); for (i, v) in vs.into_iter().enumerate() { set!(*d + i as u32, v); } }
                        else { let (x, y) = (get!(a[0]), get!(b[0])); let (p, q) = (self.sv(x, w[0]), self.sv(y, w[0])); let r = self.ar.ite(cv.e, p, q); let v = self.ve(r); set!(*d, v); }
                    }
                    I::Gep1 { d, base: b, off } => { let x = get!(*b); if x.e == 0 { set!(*d, V { c: x.c.wrapping_add(*off as u64), e: 0 }); } else { let k = self.ar.c(64, *off as u64 as u128); let r = self.ar.bin(Op::Add, x.e, k); let v = self.ve(r); set!(*d, v); } }
                    I::Gep { d, base: b, off, idx } => {
                        let x = get!(*b); let mut c = x.c.wrapping_add(*off as u64); let mut e = x.e;
                        if e != 0 { let k = self.ar.c(64, *off as u64 as u128); e = self.ar.bin(Op::Add, e, k); }
                        for (o, w, sc) in idx.iter() {
                            let v = get!(*o);
                            if v.e == 0 && e == 0 { let ix = if *w == 64 { v.c } else { sext128(v.c as u128, *w) as u64 }; c = c.wrapping_add(ix.wrapping_mul(*sc as u64)); }
                            else {
                                if e == 0 { e = self.ar.c(64, c as u128); }
                                let vi = self.sv(v, *w); let vi = self.ar.sext(vi, 64); let k = self.ar.c(64, *sc as u64 as u128); let p = self.ar.bin(Op::Mul, vi, k); e = self.ar.bin(Op::Add, e, p);
                            }
                        }
                        let v = if e == 0 { V { c, e: 0 } } else { self.ve(e) }; set!(*d, v);
                    }
                    I::Load { d, w, a } => {
                        let av = get!(*a);
                        if av.e != 0 {
                            if let Some(v) = self.load_ite(st, av.e, *w) { set!(*d, v); ip += 1; continue; }
                        }
                        let p = if av.e != 0 { conc!(*a) } else { av.c };
                        let n = (*w as usize + 7) / 8;
                        match fault!(st.mem.read(p, n)) {
                            Some(v) => { let v = if *w & 7 != 0 { v & mask(*w) as u64 } else { v }; set!(*d, V { c: v, e: 0 }); }
                            None => { let v = fault!(self.load(st, p, *w)); set!(*d, v); }
                        }
                    }
                    I::LoadM { d, parts, a } => {
                        let p = conc!(*a);
                        for (i, (w, off)) in parts.iter().enumerate() { if off % 8 != 0 { return End::Incon("bit load".into()); } let v = fault!(self.load(st, p + off / 8, *w)); set!(*d + i as u32, v); }
                    }
                    I::Store { w, v, a } => {
                        let p = conc!(*a); let x = get!(*v);
                        if x.e == 0 { fault!(st.mem.write(p, (*w as usize + 7) / 8, x.c)); } else { fault!(self.store(st, p, *w, x)); }
                    }
                    I::StoreM { parts, v, a } => { let p = conc!(*a); for (i, (w, off)) in parts.iter().enumerate() { if off % 8 != 0 { return End::Incon("bit store".into()); } let x = get!(v[i]); fault!(self.store(st, p + off / 8, *w, x)); } }
                    I::StoreBits { v, a } => { let p = conc!(*a); let mut acc: E = 0; for o in v.iter() { let x = get!(*o); let e = self.sv(x, 1); acc = if acc == 0 { e } else { self.ar.concat(e, acc) }; } let x = self.ve(acc); fault!(self.store(st, p, v.len() as u32, x)); }
                    I::Alloca { d, size, n, align } => {
                        let k = conc!(*n); let sz = size * k;
                        st.sp = (st.sp - sz) / align * align;
                        if st.sp < STACK_TOP - STACK_SZ { return End::Crash("stack", "stack exhausted".into()); }
                        let p = st.sp; set!(*d, V { c: p, e: 0 });
                    }
                    I::Rmw { d, op, w, a, v } => {
                        let p = conc!(*a); let x = get!(*v); let old = fault!(self.load(st, p, *w)); set!(*d, old);
                        let nv = if *op == 0 { x } else {
                            let (o, q) = (self.sv(old, *w), self.sv(x, *w));
                            let r = match op { 1 => self.ar.bin(Op::Add, o, q), 2 => self.ar.bin(Op::Sub, o, q), 3 => self.ar.bin(Op::And, o, q), 4 => self.ar.bin(Op::Or, o, q), 5 => self.ar.bin(Op::Xor, o, q), 6 => { let c = self.ar.bin(Op::Ult, o, q); self.ar.ite(c, q, o) } 7 => { let c = self.ar.bin(Op::Ult, o, q); self.ar.ite(c, o, q) } _ => { let t = self.ar.bin(Op::And, o, q); self.ar.not(t) } };
                            self.ve(r) };
                        fault!(self.store(st, p, *w, nv));
                    }
                    I::CmpXchg { d, w, a, c, n } => {
                        let p = conc!(*a); let (cv, nv) = (get!(*c), get!(*n)); let old = fault!(self.load(st, p, *w));
                        let ok = if old.e == 0 && cv.e == 0 { old.c == cv.c } else { let e = self.icmp_sym(Pred::Eq, *w, old, cv); save!(); tr!(self.decide(st, e)) };
                        if ok { fault!(self.store(st, p, *w, nv)); }
                        set!(*d, old); set!(*d + 1, V { c: ok as u64, e: 0 });
                    }
                    I::Br(e) => goto!(*e),
                    I::CBr { c, t, f: fe } => {
                        let v = get!(*c);
                        let b = if v.e == 0 { v.c & 1 == 1 } else { save!(); tr!(self.decide(st, v.e)) };
                        if b { goto!(*t) } else { goto!(*fe) }
                    }
                    I::Switch { v, w, def, cases } => {
                        let x = get!(*v);
                        if x.e == 0 {
                            let mut tgt = *def;
                            for (k, e) in cases.iter() { if *k == x.c { tgt = *e; break; } }
                            goto!(tgt)
                        }
                        save!();
                        let val = self.ar.eval(x.e, &st.model) as u64;
                        let mut tgt = *def; for (k, e) in cases.iter() { if *k == val { tgt = *e; break; } }
                        // condition for taking tgt
                        let mut cond: E = self.ar.ff();
                        if tgt == *def {
                            for (k, e) in cases.iter() { if *e != tgt { let q = self.ar.eqk(x.e, *k as u128); cond = self.ar.or(cond, q); } }
                            cond = self.ar.not(cond);
                        } else { for (k, e) in cases.iter() { if *e == tgt { let q = self.ar.eqk(x.e, *k as u128); cond = self.ar.or(cond, q); } } }
                        let _ = w;
                        let b = tr!(self.decide(st, cond));
                        if !b { return End::Incon("switch model mismatch".into()); }
                        goto!(tgt)
                    }
                    I::Ret(v) => {
                        let vals: Vec<V> = v.iter().map(|o| get!(*o)).collect();
                        st.frames.pop();
                        st.sp = fr.sp;
                        match st.frames.last_mut() {
                            None => return End::Done,
                            Some(c) => { c.ip += 1; for (i, x) in vals.into_iter().enumerate() { st.regs[fr.d as usize + i] = x; } }
                        }
                        continue 'frame;
                    }
                    I::Unreachable => { return End::Crash("unreachable", format!("unreachable in {}", f.name)); }
                    I::Unsupported(s) => return End::Incon(format!("unsupported instruction: {}", s)),
                    I::Intr { d, id, w, args } => {
                        save!();
                        match id {
                            Intr::Memcpy | Intr::Memmove => {
                                let n = conc!(args[2]);
                                if n > 0 {
                                    let (dp, sp) = (conc!(args[0]), conc!(args[1]));
                                    if n <= 8 { let v = fault!(self.load(st, sp, n as u32 * 8)); fault!(self.store(st, dp, n as u32 * 8, v)); }
                                    else {
                                        if n > 64 << 20 { return End::Crash("fault", format!("huge memcpy {}", n)); }
                                        let mut tb = std::mem::take(&mut self.tb); let mut ts = std::mem::take(&mut self.ts);
                                        let any = fault!(st.mem.read_bytes(sp, n, &mut tb, &mut ts));
                                        fault!(st.mem.write_bytes(dp, &tb, if any { Some(&ts) } else { None }));
                                        self.tb = tb; self.ts = ts;
                                    }
                                }
                            }
                            Intr::Memset => { let n = conc!(args[2]); if n > 0 { let p = conc!(args[0]); let v = get!(args[1]); fault!(st.mem.fill(p, v.c as u8, v.e, n)); } }
                            Intr::Tls | Intr::Expect => { let v = get!(args[0]); set!(*d, v); }
                            Intr::Trap => return End::Crash("trap", format!("trap in {}", f.name)),
                            Intr::LoadRel => { let b = conc!(args[0]); let o = conc!(args[1]); let v = fault!(self.load(st, b.wrapping_add(o), 32)); let r = b.wrapping_add(sext128(v.c as u128, 32) as u64); set!(*d, V { c: r, e: 0 }); }
                            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bitrev => {
                                let v = get!(args[0]);
                                let x: u128 = if *w > 64 { match self.ar.is_c(v.e) { Some(k) => k, None => return End::Incon("wide bitop".into()) } } else { conc!(args[0]) as u128 };
                                let r: u128 = match id { Intr::Ctlz => if x == 0 { *w as u128 } else { (x.leading_zeros() - (128 - w)) as u128 }, Intr::Cttz => if x == 0 { *w as u128 } else { x.trailing_zeros() as u128 }, Intr::Ctpop => x.count_ones() as u128, _ => x.reverse_bits() >> (128 - w) };
                                let v = if *w > 64 { V { c: 0, e: self.ar.c(*w, r) } } else { V { c: r as u64, e: 0 } }; set!(*d, v);
                            }
                            _ => {
                                let x = get!(args[0]); let y = if args.len() > 1 { get!(args[1]) } else { V::default() };
                                let a = self.sv(x, *w);
                                let w = *w;
                                match id {
                                    Intr::Bswap => { let n = w / 8; let mut acc: E = 0; for i in 0..n { let b = self.ar.extract(a, (n - 1 - i) * 8, 8); acc = if acc == 0 { b } else { self.ar.concat(b, acc) }; } let v = self.ve(acc); set!(*d, v); }
                                    Intr::Abs => { let z = self.ar.c(w, 0); let n = self.ar.bin(Op::Sub, z, a); let c = self.ar.bin(Op::Slt, a, z); let r = self.ar.ite(c, n, a); let v = self.ve(r); set!(*d, v); }
                                    Intr::Fshl | Intr::Fshr => {
                                        let sh = (conc!(args[2]) % w as u64) as u32; let b = self.sv(y, w); let cc = self.ar.concat(a, b);
                                        let r = if *id == Intr::Fshl { self.ar.extract(cc, w - sh, w) } else { self.ar.extract(cc, sh, w) }; let v = self.ve(r); set!(*d, v);
                                    }
                                    _ => {
                                        let b = self.sv(y, w);
                                        let ar = &mut self.ar;
                                        let mut ovf: Option<E> = None;
                                        let r = match id {
                                            Intr::Umax => { let c = ar.bin(Op::Ult, a, b); ar.ite(c, b, a) } Intr::Umin => { let c = ar.bin(Op::Ult, a, b); ar.ite(c, a, b) }
                                            Intr::Smax => { let c = ar.bin(Op::Slt, a, b); ar.ite(c, b, a) } Intr::Smin => { let c = ar.bin(Op::Slt, a, b); ar.ite(c, a, b) }
                                            Intr::UsubSat => { let c = ar.bin(Op::Ult, a, b); let z = ar.c(w, 0); let s = ar.bin(Op::Sub, a, b); ar.ite(c, z, s) }
                                            Intr::UaddSat => { let s = ar.bin(Op::Add, a, b); let c = ar.bin(Op::Ult, s, a); let z = ar.c(w, mask(w)); ar.ite(c, z, s) }
                                            Intr::Ucmp | Intr::Scmp => { let lt = ar.bin(if *id == Intr::Ucmp { Op::Ult } else { Op::Slt }, a, b); let eq = ar.bin(Op::Eq, a, b); let (m1, z, o) = (ar.c(8, 255), ar.c(8, 0), ar.c(8, 1)); let t = ar.ite(eq, z, o); ar.ite(lt, m1, t) }
                                            Intr::UaddO => { let s = ar.bin(Op::Add, a, b); ovf = Some(ar.bin(Op::Ult, s, a)); s }
                                            Intr::UsubO => { ovf = Some(ar.bin(Op::Ult, a, b)); ar.bin(Op::Sub, a, b) }
                                            Intr::UmulO if w <= 64 => { let (p, q) = (ar.zext(a, 2 * w), ar.zext(b, 2 * w)); let m = ar.bin(Op::Mul, p, q); let hi = ar.extract(m, w, w); let z = ar.eqk(hi, 0); ovf = Some(ar.not(z)); ar.extract(m, 0, w) }
                                            Intr::SaddO | Intr::SsubO | Intr::SmulO if w <= 64 => { let (p, q) = (ar.sext(a, 2 * w), ar.sext(b, 2 * w)); let m = ar.bin(match id { Intr::SaddO => Op::Add, Intr::SsubO => Op::Sub, _ => Op::Mul }, p, q); let lo = ar.extract(m, 0, w); let back = ar.sext(lo, 2 * w); let eq = ar.bin(Op::Eq, m, back); ovf = Some(ar.not(eq)); lo }
                                            _ => return End::Incon(format!("intrinsic {:?} w={}", id, w)),
                                        };
                                        let v = self.ve(r); set!(*d, v);
                                        if let Some(o) = ovf { let v = self.ve(o); set!(*d + 1, v); }
                                    }
                                }
                            }
                        }
                    }
                    I::Call { d, nret, f: cal, args } => {
                        save!();
                        let id = match cal { Callee::Fn(i) => *i, Callee::Ind(o) => { let p = conc!(*o); if p < FN_BASE || (p - FN_BASE) % 16 != 0 || (p - FN_BASE) / 16 >= (m.funcs.len() + m.ext.len()) as u64 { return End::Crash("fault", format!("call to {:#x}", p)); } ((p - FN_BASE) / 16) as u32 } };
                        if (id as usize) < m.funcs.len() {
                            let g = &m.funcs[id as usize];
                            if g.is_panic { return End::Crash("panic", format!("panic via {}", short(&f.name))); }
                            self.sh.cover[(id as usize).min(32767)].store(1, Relaxed);
                            let nb = base + f.nslots as usize;
                            if st.frames.len() > 20000 { return End::Crash("stack", "call depth > 20000".into()); }
                            let need = nb + g.nslots as usize;
                            if st.regs.len() < need { st.regs.resize(need + 512, V::default()); }
                            let mut k = nb;
                            for o in args.iter() { let v = get!(*o); st.regs[k] = v; k += 1; if k - nb >= g.nargs as usize { break; } }
                            st.frames.push(Fr { f: id, ip: 0, base: nb as u32, d: (base + *d as usize) as u32, sp: st.sp });
                            continue 'frame;
                        }
                        let x = self.ext[id as usize - m.funcs.len()];
                        let mut ret = V::default();
                        match x {
                            X::Malloc => { let n = conc!(args[0]); if st.heap + n > HEAP_MAX { return End::Incon("heap exhausted".into()); } ret.c = self.malloc(st, n, 16); }
                            X::Calloc => { let n = conc!(args[0]) * conc!(args[1]); if st.heap + n > HEAP_MAX { return End::Incon("heap exhausted".into()); } ret.c = self.malloc(st, n, 16); }
                            X::PosixMemalign => { let al = conc!(args[1]); let n = conc!(args[2]); if st.heap + n > HEAP_MAX { return End::Incon("heap exhausted".into()); } let p = self.malloc(st, n, al); let dst = conc!(args[0]); fault!(st.mem.write(dst, 8, p)); }
                            X::Realloc => {
                                let p = conc!(args[0]); let n = conc!(args[1]); if st.heap + n > HEAP_MAX { return End::Incon("heap exhausted".into()); }
                                let q = self.malloc(st, n, 16);
                                if p != 0 { let old = match fault!(st.mem.read(p - 16, 8)) { Some(v) => v, None => return End::Incon("realloc".into()) }; let k = old.min(n); let mut tb = std::mem::take(&mut self.tb); let mut ts = std::mem::take(&mut self.ts); let any = fault!(st.mem.read_bytes(p, k, &mut tb, &mut ts)); fault!(st.mem.write_bytes(q, &tb, if any { Some(&ts) } else { None })); self.tb = tb; self.ts = ts; }
                                ret.c = q;
                            }
                            X::Free => {}
                            X::Bcmp | X::Memcmp => {
                                let n = conc!(args[2]); 
                                if n > 0 {
                                let (p, q) = (conc!(args[0]), conc!(args[1]));
                                let (mut b1, mut s1, mut b2, mut s2) = (std::mem::take(&mut self.tb), std::mem::take(&mut self.ts), std::mem::take(&mut self.tb2), std::mem::take(&mut self.ts2));
                                let a1 = fault!(st.mem.read_bytes(p, n, &mut b1, &mut s1)); let a2 = fault!(st.mem.read_bytes(q, n, &mut b2, &mut s2));
                                if !a1 && !a2 { ret.c = match b1.cmp(&b2) { std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Less => 0xffff_ffff, _ => 1 }; }
                                else {
                                    let by = |ar: &mut Arena, b: &[u8], s: &[E], i: usize| -> E { if !s.is_empty() && s[i] != 0 { s[i] } else { ar.c(8, b[i] as u128) } };
                                    if x == X::Bcmp {
                                        let mut c = self.ar.tt();
                                        for i in 0..n as usize { let (e1, e2) = (by(&mut self.ar, &b1, &s1, i), by(&mut self.ar, &b2, &s2, i)); let q = self.ar.bin(Op::Eq, e1, e2); c = self.ar.and(c, q); if self.ar.is_c(c) == Some(0) { break; } }
                                        let nc = self.ar.not(c); let r = self.ar.zext(nc, 32); ret = self.ve(r);
                                    } else {
                                        let mut r = self.ar.c(32, 0);
                                        for i in (0..n as usize).rev() { let (e1, e2) = (by(&mut self.ar, &b1, &s1, i), by(&mut self.ar, &b2, &s2, i)); let eq = self.ar.bin(Op::Eq, e1, e2); let lt = self.ar.bin(Op::Ult, e1, e2); let (m1, o) = (self.ar.c(32, 0xffff_ffff), self.ar.c(32, 1)); let t = self.ar.ite(lt, m1, o); r = self.ar.ite(eq, r, t); }
                                        ret = self.ve(r);
                                    }
                                }
                                self.tb = b1; self.ts = s1; self.tb2 = b2; self.ts2 = s2;
                                }
                            }
                            X::Strlen => { let p = conc!(args[0]); let mut n = 0; loop { let (b, e) = fault!(st.mem.byte(p + n)); if e != 0 { return End::Incon("symbolic strlen".into()); } if b == 0 { break; } n += 1; } ret.c = n; }
                            X::Memchr => {
                                let p = conc!(args[0]); let n = conc!(args[2]); let c = get!(args[1]); let ce = self.sv(c, 32); let ce = self.ar.extract(ce, 0, 8);
                                for i in 0..n { let v = fault!(self.load(st, p + i, 8)); let ve = self.sv(v, 8); let q = self.ar.bin(Op::Eq, ve, ce); if tr!(self.decide(st, q)) { ret.c = p + i; break; } }
                            }
                            X::Zero => {}
                            X::One => ret.c = 1,
                            X::MinusOne => ret.c = !0,
                            X::Abort => return End::Crash("abort", "abort()".into()),
                            X::Write => { ret.c = conc!(args[2]); }
                            X::Getenv => {}
                            X::TsdSet => { st.tsd = conc!(args[1]); }
                            X::TsdGet => ret.c = st.tsd,
                            X::Errno => { ret.c = self.malloc(st, 8, 16); }
                            X::Clock => { let p = conc!(args[1]); fault!(st.mem.write(p, 8, 1000)); fault!(st.mem.write(p + 8, 8, 0)); }
                            X::Syscall => { let n = conc!(args[0]); match n { 318 => { let p = conc!(args[1]); let k = conc!(args[2]); fault!(st.mem.fill(p, 0x5a, 0, k)); ret.c = k; } 186 | 39 => ret.c = 1, 202 => { ret.c = 0; st.soft += 1; if st.soft > 10000 { return End::Crash("hang", "futex wait forever".into()); } } _ => return End::Incon(format!("syscall {}", n)) } }
                            X::Getrandom => { let p = conc!(args[0]); let k = conc!(args[1]); fault!(st.mem.fill(p, 0x5a, 0, k)); ret.c = k; }
                            X::SymU8 | X::SymU32 => {
                                let (lo, hi) = (conc!(args[0]), conc!(args[1]));
                                // a small range needs few bits: the value is the zero extension of a narrow variable
                                let w = if x == X::SymU8 || hi < 256 { 8 } else { 32 };
                                let id = st.vars.len() as u32;
                                if id >= 128 { return End::Incon("more than 128 symbolic variables".into()); }
                                let v = self.ar.var(id, w); st.vars.push(v); st.inputs.push(In::Var(id));
                                let (l, h) = (self.ar.c(w, lo as u128), self.ar.c(w, hi as u128));
                                let c1 = self.ar.bin(Op::Ule, l, v); let c2 = self.ar.bin(Op::Ule, v, h);
                                self.add(st, c1); self.add(st, c2);
                                if st.model.len() <= id as usize { st.model.resize(id as usize + 1, 0); }
                                st.model[id as usize] = lo;
                                ret = V { c: 0, e: if x == X::SymU8 { v } else { self.ar.zext(v, 32) } };
                            }
                            X::Pick => {
                                let n = conc!(args[0]);
                                for k in (1..n).rev() { let mut o = st.clone(); o.inputs.push(In::Pick(k)); o.regs[base + *d as usize] = V { c: k, e: 0 }; o.frames.last_mut().unwrap().ip += 1; self.push(o); }
                                st.inputs.push(In::Pick(0));
                                if n == 0 { return End::Infeasible; }
                            }
                            X::Assume => {
                                let v = get!(args[0]);
                                if v.e == 0 { if v.c & 1 == 0 { return End::Infeasible; } }
                                else {
                                    let e = if self.ar.w(v.e) > 1 { let z = self.ar.eqk(v.e, 0); self.ar.not(z) } else { v.e };
                                    if self.ar.eval(e, &st.model) != 1 { match tr!(self.feasible(st, e)) { Some(md) => st.model = md, None => return End::Infeasible } }
                                    self.add(st, e);
                                }
                            }
                            X::Assert => {
                                let v = get!(args[0]); let p = conc!(args[1]); let n = conc!(args[2]);
                                self.sh.asserts.fetch_add(1, Relaxed);
                                let mut tb = vec![]; let mut ts = vec![]; let _ = st.mem.read_bytes(p, n, &mut tb, &mut ts);
                                let msg = String::from_utf8_lossy(&tb).into_owned();
                                if v.e == 0 { if v.c & 1 == 0 { let s = st.clone(); self.violation(&s, "assert", &msg); return End::Stop; } }
                                else {
                                    self.sh.asserts_sym.fetch_add(1, Relaxed);
                                    let e = if self.ar.w(v.e) > 1 { let z = self.ar.eqk(v.e, 0); self.ar.not(z) } else { v.e };
                                    let ne = self.ar.not(e);
                                    if let Some(md) = tr!(self.feasible(st, ne)) { let mut s = st.clone(); s.model = md; self.violation(&s, "assert", &msg); }
                                    match tr!(self.feasible(st, e)) { Some(md) => st.model = md, None => return End::Stop }
                                    self.add(st, e);
                                }
                            }
                            X::Reach => { let p = conc!(args[0]); let n = conc!(args[1]); let mut tb = vec![]; let mut ts = vec![]; let _ = st.mem.read_bytes(p, n, &mut tb, &mut ts); let msg = String::from_utf8_lossy(&tb).into_owned(); if self.reached.insert(msg.clone()) { let i = self.inputs_str(st); self.line(format!("R\t{}\t{}", msg, i)); } }
                            X::Note => { let p = conc!(args[0]); let n = conc!(args[1]); // copy, so later writes do not matter
                                let q = self.malloc(st, n.max(1), 16); let mut tb = vec![]; let mut ts = vec![]; let any = fault!(st.mem.read_bytes(p, n, &mut tb, &mut ts)); fault!(st.mem.write_bytes(q, &tb, if any { Some(&ts) } else { None })); st.notes.push((q, n)); }
                            X::Concr => { ret.c = conc!(args[0]); }
                            X::IsSym => { ret.c = (get!(args[0]).e != 0) as u64; }
                            X::Param => { let i = conc!(args[0]); let dv = conc!(args[1]); ret.c = self.params.get(i as usize).copied().unwrap_or(dv); }
                            X::Check | X::Soft => {}
                            X::Unknown => return End::Incon(format!("external function {}", m.ext[id as usize - m.funcs.len()])),
                        }
                        if *nret > 0 { set!(*d, ret); }
                    }
                }
                ip += 1;
            }
        }
    }
}

/// readable path out of a v0-mangled name: the length-prefixed identifiers
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes(); let mut i = 2; let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' { // disambiguator / backref: base62 up to '_'
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i; let mut len = 0usize; while j < b.len() && b[j].is_ascii_digit() { len = len * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if j + len <= b.len() && len > 0 { out.push(n[j..j + len].to_string()); i = j + len; continue; }
        }
        i += 1;
    }
    out.join("::")
}
