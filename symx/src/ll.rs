//! Parser for LLVM textual IR (post-LTO module) into a flat bytecode.
use crate::expr::{Arena, E, FxMap, Op, mask, fold};
use crate::mem::Mem;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Vec(u32, Box<Ty>), Other }

impl Ty {
    pub fn align(&self) -> u64 { match self { Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 }, Ty::Ptr => 8, Ty::Arr(_, t) => t.align(), Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }, Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 / 8).next_power_of_two().max(1), _ => 1 } }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, _ => panic!("bits of {:?}", self) } }
    pub fn size(&self) -> u64 { match self {
        Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
        Ty::Ptr => 8, Ty::Arr(n, t) => n * t.size(),
        Ty::Struct(f, p) => { let mut o = 0; for t in f { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); } let a = self.align(); (o + a - 1) / a * a }
        Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
        _ => 0 } }
    /// scalar leaves: (bit width, bit offset)
    pub fn flat(&self, off: u64, out: &mut Vec<(u32, u64)>) { match self {
        Ty::Int(w) => out.push((*w, off)), Ty::Ptr => out.push((64, off)),
        Ty::Arr(n, t) => for i in 0..*n { t.flat(off + i * t.size() * 8, out) },
        Ty::Struct(f, p) => { let mut o = 0; for t in f { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } t.flat(off + o * 8, out); o += t.size(); } }
        Ty::Vec(n, t) => for i in 0..*n { t.flat(off + (i * t.bits()) as u64, out) },
        _ => {} } }
    pub fn leaves(&self) -> Vec<(u32, u64)> { let mut v = vec![]; self.flat(0, &mut v); v }
    pub fn nleaves(&self) -> u32 { match self { Ty::Int(_) | Ty::Ptr => 1, Ty::Arr(n, t) => *n as u32 * t.nleaves(), Ty::Struct(f, _) => f.iter().map(|t| t.nleaves()).sum(), Ty::Vec(n, t) => n * t.nleaves(), _ => 0 } }
    fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr) }
}

#[derive(Clone, Copy, Debug)]
pub enum O { R(u32), K(u64), W(E) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, Zext, Sext }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(O) }

pub type Edge = u32;

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, w: u32, d: u32, a: O, b: O },
    Icmp { p: Pred, w: u32, d: u32, a: O, b: O },
    Cast { k: Cast, f: u32, t: u32, d: u32, a: O },
    /// lane-wise group of scalar instructions (vectors)
    Multi(Box<[I]>),
    Copy { d: u32, a: Box<[O]> },
    Copy1 { d: u32, a: O },
    /// reinterpret: list of (width) source leaves to destination leaf widths
    Bitcast { d: u32, src: Box<[(O, u32)]>, dst: Box<[u32]> },
    Select { d: u32, c: O, ptr: bool, w: Box<[u32]>, a: Box<[O]>, b: Box<[O]> },
    Gep { d: u32, base: O, off: i64, idx: Box<[(O, u32, i64)]> },
    Gep1 { d: u32, base: O, off: i64 },
    Load { d: u32, w: u32, a: O },
    LoadM { d: u32, parts: Box<[(u32, u64)]>, a: O },
    Store { w: u32, v: O, a: O },
    StoreM { parts: Box<[(u32, u64)]>, v: Box<[O]>, a: O },
    StoreBits { v: Box<[O]>, a: O },
    Alloca { d: u32, size: u64, n: O, align: u64 },
    Call { d: u32, nret: u32, f: Callee, args: Box<[O]> },
    Intr { d: u32, id: Intr, w: u32, args: Box<[O]> },
    Rmw { d: u32, op: u8, w: u32, a: O, v: O },
    CmpXchg { d: u32, w: u32, a: O, c: O, n: O },
    Br(Edge),
    CBr { c: O, t: Edge, f: Edge },
    Switch { v: O, w: u32, def: Edge, cases: Box<[(u64, Edge)]> },
    Ret(Box<[O]>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr { Nop, Memcpy, Memmove, Memset, Bswap, Bitrev, Ctlz, Cttz, Ctpop, Fshl, Fshr, Umax, Umin, Smax, Smin, Abs, UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, UsubSat, UaddSat, Ucmp, Scmp, LoadRel, Tls, Trap, Assume, Expect }

pub struct EdgeD { pub to: u32, pub copies: Box<[(u32, O)]>, pub overlap: bool }

pub struct Func { pub name: String, pub nargs: u32, pub nslots: u32, pub code: Vec<I>, pub edges: Vec<EdgeD>, pub is_panic: bool }

pub struct Module {
    pub funcs: Vec<Func>,
    pub ext: Vec<String>,               // external functions, ids follow funcs
    pub fidx: FxMap<String, u32>,
    pub gaddr: FxMap<String, u64>,
    pub gend: u64,
    pub n_instr: usize,
}
pub const FN_BASE: u64 = 0x7000_0000_0000;
pub const G_BASE: u64 = 0x10000;

// ---------- lexer ----------
#[derive(Clone, Debug, PartialEq)]
enum T<'a> { Id(&'a str), Loc(String), Glob(String), Num(&'a str), P(char), Str(Vec<u8>), Meta, Dots }

struct Lx<'a> { t: Vec<T<'a>>, i: usize }

fn unq(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } } else { o.push(b[i]); i += 1; } }
    o
}
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

fn lex<'a>(s: &'a str, out: &mut Vec<T<'a>>) {
    let b = s.as_bytes(); let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' { let j = i + 2 + s[i + 2..].find('"').unwrap(); name = String::from_utf8_lossy(&unq(&s[i + 2..j])).into_owned(); i = j + 1; }
                else { let mut j = i + 1; while j < b.len() && idc(b[j]) { j += 1; } name = s[i + 1..j].to_string(); i = j; }
                out.push(if c == b'%' { T::Loc(name) } else { T::Glob(name) });
            }
            b'!' => { // metadata: skip name/number; nested !{...} or !"..." or !DIFoo(...)
                i += 1;
                if i < b.len() && b[i] == b'"' { i += 1; while b[i] != b'"' { i += 1; } i += 1; }
                while i < b.len() && (idc(b[i]) || b[i] == b'\\') { i += 1; }
                if i < b.len() && b[i] == b'(' { let mut d = 0; loop { if b[i] == b'(' { d += 1; } if b[i] == b')' { d -= 1; } i += 1; if d == 0 { break; } } }
                out.push(T::Meta);
            }
            b'"' => { let j = i + 1 + s[i + 1..].find('"').unwrap(); out.push(T::Str(unq(&s[i + 1..j]))); i = j + 1; }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let j = i + 2 + s[i + 2..].find('"').unwrap(); out.push(T::Str(unq(&s[i + 2..j]))); i = j + 1; }
            b'#' => { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1; } out.push(T::Meta); }
            b'.' if s[i..].starts_with("...") => { out.push(T::Dots); i += 3; }
            b'0'..=b'9' | b'-' | b'+' => { let mut j = i + 1; while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+') { j += 1; } out.push(T::Num(&s[i..j])); i = j; }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => { let mut j = i; while j < b.len() && idc(b[j]) { j += 1; } out.push(T::Id(&s[i..j])); i = j; }
            _ => { out.push(T::P(c as char)); i += 1; }
        }
    }
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self { let mut t = vec![]; lex(s, &mut t); Lx { t, i: 0 } }
    fn peek(&self) -> Option<&T<'a>> { self.t.get(self.i) }
    fn next(&mut self) -> T<'a> { let t = self.t[self.i].clone(); self.i += 1; t }
    fn is_p(&self, c: char) -> bool { matches!(self.peek(), Some(T::P(x)) if *x == c) }
    fn eat(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) { if !self.eat(c) { panic!("expected {:?} at {:?}", c, &self.t[self.i.saturating_sub(8)..(self.i + 8).min(self.t.len())]) } }
    fn is_id(&self, s: &str) -> bool { matches!(self.peek(), Some(T::Id(x)) if *x == s) }
    fn eat_id(&mut self, s: &str) -> bool { if self.is_id(s) { self.i += 1; true } else { false } }
    fn skip_paren(&mut self) { let mut d = 0; loop { match self.next() { T::P('(') => d += 1, T::P(')') => d -= 1, _ => {} } if d == 0 { break; } } }
    fn num(&mut self) -> u64 { match self.next() { T::Num(n) => n.parse().unwrap(), t => panic!("num {:?}", t) } }
    fn is_ty(&self) -> bool { match self.peek() { Some(T::Id(s)) => *s == "void" || *s == "ptr" || *s == "float" || *s == "double" || *s == "half" || *s == "metadata" || *s == "token" || *s == "label" || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit())), Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true, _ => false } }
    fn ty(&mut self) -> Ty {
        match self.next() {
            T::Id("void") => Ty::Void, T::Id("ptr") => { if self.eat_id("addrspace") { self.skip_paren(); } Ty::Ptr }
            T::Id("float") => Ty::Int(32), T::Id("double") => Ty::Int(64), T::Id("half") => Ty::Int(16),
            T::Id("metadata") | T::Id("token") | T::Id("label") => Ty::Other,
            T::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap()),
            T::P('[') => { let n = self.num(); assert!(self.eat_id("x")); let t = self.ty(); self.exp(']'); Ty::Arr(n, Box::new(t)) }
            T::P('{') => { let v = self.tys('}'); Ty::Struct(v, false) }
            T::P('<') => if self.eat('{') { let v = self.tys('}'); self.exp('>'); Ty::Struct(v, true) } else { let n = self.num(); assert!(self.eat_id("x")); let t = self.ty(); self.exp('>'); Ty::Vec(n as u32, Box::new(t)) },
            t => panic!("type {:?} near {:?}", t, &self.t[self.i.saturating_sub(6)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn tys(&mut self, end: char) -> Vec<Ty> { let mut v = vec![]; if self.eat(end) { return v; } loop { v.push(self.ty()); if self.eat(',') { continue; } self.exp(end); return v; } }
    fn is_val(&self) -> bool { match self.peek() { Some(T::Loc(_)) | Some(T::Glob(_)) | Some(T::Num(_)) | Some(T::Str(_)) | Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) | Some(T::Meta) => true, Some(T::Id(s)) => matches!(*s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "sub" | "add" | "xor" | "bitcast" | "splat" | "ptrtoaddr"), _ => false } }
    /// skip attributes up to a type
    fn skip_to_ty(&mut self) { while !self.is_ty() { match self.next() { T::Id("align") => { if matches!(self.peek(), Some(T::Num(_))) { self.i += 1; } } T::Id(_) => { if self.is_p('(') { self.skip_paren(); } } T::Num(_) | T::Str(_) | T::Meta => {} t => panic!("skip_to_ty {:?} in {:?}", t, &self.t[..self.t.len().min(20)]) } } }
    fn skip_attrs(&mut self) { while !self.is_val() { match self.next() { T::Id("align") => { if matches!(self.peek(), Some(T::Num(_))) { self.i += 1; } } T::Id(_) => { if self.is_p('(') { self.skip_paren(); } } t => panic!("skip_attrs {:?} in {:?}", t, &self.t[..self.t.len().min(30)]) } } }
}

fn parse_int(n: &str, w: u32) -> u128 {
    if let Some(h) = n.strip_prefix("0x") { return u64::from_str_radix(h, 16).unwrap_or(0) as u128; }
    if n.contains('.') { return n.parse::<f64>().map(|f| if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }).unwrap_or(0); }
    if let Some(m) = n.strip_prefix('-') { (0u128.wrapping_sub(m.parse::<u128>().unwrap())) & mask(w) } else { n.parse::<u128>().unwrap() & mask(w) }
}

struct Env { gaddr: FxMap<String, u64>, fidx: FxMap<String, u32> }
impl Env {
    fn sym(&self, n: &str) -> u64 { if let Some(a) = self.gaddr.get(n) { *a } else if let Some(f) = self.fidx.get(n) { FN_BASE + *f as u64 * 16 } else { panic!("unknown global {}", n) } }
    /// constant -> leaves (as u128 values)
    fn cst(&self, l: &mut Lx, ty: &Ty, out: &mut Vec<u128>) {
        match l.peek().unwrap() {
            T::Id("zeroinitializer") | T::Id("undef") | T::Id("poison") | T::Id("null") | T::Id("none") => { l.i += 1; for _ in 0..ty.nleaves() { out.push(0); } }
            T::Id("true") => { l.i += 1; out.push(1) }
            T::Id("false") => { l.i += 1; out.push(0) }
            T::Num(n) => { let w = ty.bits(); out.push(parse_int(n, w)); l.i += 1; }
            T::Glob(n) => { out.push(self.sym(n) as u128); l.i += 1; }
            T::Str(s) => { for b in s.iter() { out.push(*b as u128); } l.i += 1; }
            T::P('[') | T::P('{') => { let e = if l.eat('[') { ']' } else { l.i += 1; '}' }; if l.eat(e) { return; } loop { let t = l.ty(); self.cst(l, &t, out); if l.eat(',') { continue; } l.exp(e); break; } }
            T::P('<') => { l.i += 1; let packed = l.eat('{'); if packed && l.eat('}') { l.exp('>'); return; } loop { let t = l.ty(); self.cst(l, &t, out); if l.eat(',') { continue; } if packed { l.exp('}'); } l.exp('>'); break; } }
            T::Id("splat") => { l.i += 1; l.exp('('); let t = l.ty(); let mut v = vec![]; self.cst(l, &t, &mut v); l.exp(')'); for _ in 0..ty.nleaves() { out.push(v[0]); } }
            T::Id(op) => {
                let op = *op; l.i += 1;
                match op {
                    "getelementptr" => {
                        while matches!(l.peek(), Some(T::Id(x)) if matches!(*x, "inbounds" | "nuw" | "nusw")) || l.is_id("inrange") { l.i += 1; if l.is_p('(') && matches!(&l.t[l.i - 1], T::Id("inrange")) { l.skip_paren(); } }
                        l.exp('('); let bt = l.ty(); l.exp(','); let pt = l.ty(); let mut base = vec![]; self.cst(l, &pt, &mut base);
                        let mut off = 0i128; let mut cur = bt; let mut first = true;
                        while l.eat(',') {
                            let it = l.ty(); let mut v = vec![]; self.cst(l, &it, &mut v);
                            let ix = crate::expr::sext128(v[0], it.bits());
                            if first { off += ix * cur.size() as i128; first = false; } else { let (o, t) = step(&cur, ix as u64); off += o as i128; cur = t; if let Ty::Void = cur { off += ix * 0; } }
                        }
                        l.exp(')'); out.push((base[0] as i128 + off) as u128 & mask(64));
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => { l.exp('('); let t = l.ty(); let mut v = vec![]; self.cst(l, &t, &mut v); assert!(l.eat_id("to")); let t2 = l.ty(); l.exp(')'); out.push(v[0] & mask(t2.bits())); }
                    "sub" | "add" | "xor" => { while l.is_id("nuw") || l.is_id("nsw") { l.i += 1; } l.exp('('); let t = l.ty(); let mut a = vec![]; self.cst(l, &t, &mut a); l.exp(','); let t2 = l.ty(); self.cst(l, &t2, &mut a); l.exp(')'); out.push(fold(match op { "sub" => Op::Sub, "add" => Op::Add, _ => Op::Xor }, t.bits(), a[0], a[1])); }
                    _ => panic!("const expr {}", op),
                }
            }
            t => panic!("const {:?}", t),
        }
    }
}
fn step(t: &Ty, ix: u64) -> (u64, Ty) {
    match t {
        Ty::Arr(_, e) => (ix * e.size(), (**e).clone()),
        Ty::Vec(_, e) => (ix * e.size(), (**e).clone()),
        Ty::Struct(f, p) => { let mut o = 0; for (i, t) in f.iter().enumerate() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } if i as u64 == ix { return (o, t.clone()); } o += t.size(); } panic!("struct idx") }
        _ => panic!("gep step into {:?}", t),
    }
}

pub fn load(text: &str, ar: &mut Arena, mem: &mut Mem) -> Module {
    let mut env = Env { gaddr: Default::default(), fidx: Default::default() };
    let mut globs: Vec<(&str, u64)> = vec![];
    let mut funcs: Vec<(String, &str)> = vec![];
    let mut decls: Vec<String> = vec![];
    let mut weak: Vec<String> = vec![];
    // pass 1: split
    let mut pos = 0; let bytes = text.as_bytes();
    let gname = |s: &str| -> String { let s = &s[s.find('@').unwrap()..]; let mut v = vec![]; let end = if s.as_bytes()[1] == b'"' { 3 + s[2..].find('"').unwrap() } else { 1 + s[1..].bytes().position(|c| !idc(c)).unwrap_or(s.len() - 1) }; lex(&s[..end], &mut v); match &v[0] { T::Glob(n) => n.clone(), _ => panic!() } };
    let mut cur = G_BASE;
    while pos < bytes.len() {
        let e = text[pos..].find('\n').map_or(bytes.len(), |x| pos + x);
        let line = &text[pos..e];
        if line.starts_with("define") {
            let end = pos + text[pos..].find("\n}").unwrap() + 2;
            funcs.push((gname(line), &text[pos..end]));
            pos = end; continue;
        } else if line.starts_with("declare") { decls.push(gname(line)); if line.contains("extern_weak") { weak.push(gname(line)); } }
        else if line.starts_with('@') { globs.push((line, 0)); }
        pos = e + 1;
    }
    for (i, (n, _)) in funcs.iter().enumerate() { env.fidx.insert(n.clone(), i as u32); }
    let mut ext = vec![];
    for d in &decls { if !env.fidx.contains_key(d) { env.fidx.insert(d.clone(), (funcs.len() + ext.len()) as u32); ext.push(d.clone()); } }
    // globals: layout
    let mut parsed = vec![];
    for (line, _) in &globs {
        let mut l = Lx::new(line);
        let name = match l.next() { T::Glob(n) => n, _ => panic!() };
        l.exp('=');
        let mut external = false; let mut alias = false;
        loop { match l.next() { T::Id("global") | T::Id("constant") => break, T::Id("alias") => { alias = true; break; } T::Id("external") | T::Id("extern_weak") => external = true, T::Id(_) => { if l.is_p('(') { l.skip_paren(); } } _ => {} } }
        let ty = l.ty();
        if alias { l.exp(','); let t = l.ty(); let _ = t; if let T::Glob(n) = l.next() { if let Some(f) = env.fidx.get(&n).copied() { env.fidx.insert(name, f); } } continue; }
        let sz = ty.size().max(1);
        let al = { // explicit alignment
            let mut a = ty.align().max(1); let n = l.t.len(); for k in 0..n { if let T::Id("align") = l.t[k] { if let Some(T::Num(x)) = l.t.get(k + 1) { a = a.max(x.parse().unwrap()); } } } a.max(8) };
        cur = (cur + al - 1) / al * al;
        env.gaddr.insert(name, cur);
        if !external { parsed.push((l, ty, cur)); }
        mem.map(cur, sz);
        cur += sz + 16;
    }
    let gend = cur;
    for (mut l, ty, a) in parsed {
        let mut v = vec![]; env.cst(&mut l, &ty, &mut v);
        let lv = ty.leaves();
        assert_eq!(lv.len(), v.len());
        for ((w, off), k) in lv.iter().zip(v) {
            let nb = (*w as usize + 7) / 8; let p = a + off / 8;
            for i in 0..nb { let _ = mem.wbyte(p + i as u64, (k >> (8 * i)) as u8, 0); }
        }
    }
    let mut out = vec![]; let mut n_instr = 0;
    for (name, body) in &funcs {
        let f = parse_fn(name, body, &env, ar);
        n_instr += f.code.len();
        out.push(f);
    }
    Module { funcs: out, ext, fidx: env.fidx, gaddr: env.gaddr, gend, n_instr }
}

struct FB<'e> { env: &'e Env, slots: FxMap<String, (u32, Ty)>, n: u32 }
impl<'e> FB<'e> {
    fn def(&mut self, n: &str, ty: &Ty) -> u32 {
        if let Some((s, _)) = self.slots.get(n) { return *s; }
        let s = self.n; self.n += ty.nleaves().max(1); self.slots.insert(n.to_string(), (s, ty.clone())); s
    }
    /// operands resolved lazily: forward refs get slots on demand (phi only) since type is known at use
    fn val(&mut self, l: &mut Lx, ty: &Ty, ar: &mut Arena) -> Vec<O> {
        if let Some(T::Loc(n)) = l.peek() {
            let n = n.clone(); l.i += 1;
            let s = self.def(&n, ty);
            return (0..ty.nleaves()).map(|i| O::R(s + i)).collect();
        }
        if let Some(T::Meta) = l.peek() { l.i += 1; return vec![]; }
        let mut v = vec![]; self.env.cst(l, ty, &mut v);
        let lv = ty.leaves();
        v.iter().zip(lv).map(|(k, (w, _))| if w > 64 { O::W(ar.c(w, *k)) } else { O::K(*k as u64) }).collect()
    }
    fn v1(&mut self, l: &mut Lx, ty: &Ty, ar: &mut Arena) -> O { self.val(l, ty, ar)[0] }
    fn tv(&mut self, l: &mut Lx, ar: &mut Arena) -> (Ty, Vec<O>) { let t = l.ty(); if t != Ty::Other { l.skip_attrs(); } let v = self.val(l, &t, ar); (t, v) }
}

fn label_of(line: &str) -> Option<String> {
    if line.starts_with(' ') || line.starts_with('}') || line.starts_with(';') || line.is_empty() { return None; }
    if line.starts_with('"') { let j = 1 + line[1..].find('"').unwrap(); return Some(String::from_utf8_lossy(&unq(&line[1..j])).into_owned()); }
    line.find(':').map(|i| line[..i].to_string())
}

fn binop(s: &str) -> Option<Op> { Some(match s { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, _ => return None }) }

fn intrinsic(n: &str) -> Option<Intr> {
    let n = n.strip_prefix("llvm.")?;
    let p = |s: &str| n.starts_with(s);
    Some(if p("lifetime") || p("experimental.noalias") || p("x86.sse2.pause") || p("invariant") || p("prefetch") || p("dbg") || p("donothing") { Intr::Nop }
    else if p("assume") { Intr::Assume } else if p("expect") { Intr::Expect }
    else if p("memcpy") { Intr::Memcpy } else if p("memmove") { Intr::Memmove } else if p("memset") { Intr::Memset }
    else if p("bswap") { Intr::Bswap } else if p("bitreverse") { Intr::Bitrev } else if p("ctlz") { Intr::Ctlz } else if p("cttz") { Intr::Cttz } else if p("ctpop") { Intr::Ctpop }
    else if p("fshl") { Intr::Fshl } else if p("fshr") { Intr::Fshr } else if p("umax") { Intr::Umax } else if p("umin") { Intr::Umin } else if p("smax") { Intr::Smax } else if p("smin") { Intr::Smin } else if p("abs") { Intr::Abs }
    else if p("uadd.with") { Intr::UaddO } else if p("usub.with") { Intr::UsubO } else if p("umul.with") { Intr::UmulO } else if p("sadd.with") { Intr::SaddO } else if p("ssub.with") { Intr::SsubO } else if p("smul.with") { Intr::SmulO }
    else if p("usub.sat") { Intr::UsubSat } else if p("uadd.sat") { Intr::UaddSat } else if p("ucmp") { Intr::Ucmp } else if p("scmp") { Intr::Scmp }
    else if p("load.relative") { Intr::LoadRel } else if p("threadlocal") { Intr::Tls } else if p("trap") || p("ubsantrap") || p("debugtrap") { Intr::Trap }
    else { return None })
}

enum Term { Br(String), CBr(O, String, String), Sw(O, u32, String, Vec<(u64, String)>), Done }

fn is_panic_name(n: &str) -> bool {
    if !n.contains("9panicking") { return false; }
    // core::panicking::* and std's panic entry points; not panic_count helpers
    (n.contains("4core9panicking") || n.contains("panic_fmt") || n.contains("begin_panic") || n.contains("rust_panic") || n.contains("panic_handler")) && !n.contains("panic_count") && !n.contains("panicking9panicking")
}

fn parse_fn(name: &str, body: &str, env: &Env, ar: &mut Arena) -> Func {
    let mut fb = FB { env, slots: Default::default(), n: 0 };
    let mut lines = body.lines();
    let hdr = lines.next().unwrap();
    let mut l = Lx::new(hdr);
    // skip to '@name'
    while !matches!(l.peek(), Some(T::Glob(_))) { l.i += 1; }
    l.i += 1; l.exp('(');
    let mut unnamed = 0; let mut nargs = 0;
    if !l.eat(')') { loop {
        if l.peek() == Some(&T::Dots) { l.i += 1; l.exp(')'); break; }
        let ty = l.ty();
        loop { match l.peek() { Some(T::Loc(_)) => break, Some(T::P(',')) | Some(T::P(')')) => break, _ => { l.i += 1; if l.is_p('(') { l.skip_paren(); } } } }
        let nm = if let Some(T::Loc(n)) = l.peek() { let n = n.clone(); l.i += 1; if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } n } else { let n = unnamed.to_string(); unnamed += 1; n };
        fb.def(&nm, &ty); nargs += ty.nleaves();
        if l.eat(',') { continue; } l.exp(')'); break;
    } }
    let mut code: Vec<I> = vec![];
    let mut blocks: FxMap<String, u32> = Default::default();
    let mut terms: Vec<(usize, String, Term)> = vec![];
    let mut phis: FxMap<String, Vec<(u32, Vec<(Vec<O>, String)>)>> = Default::default();
    let mut curb = unnamed.to_string();
    let mut first = true;
    while let Some(line) = lines.next() {
        if line.is_empty() || line.starts_with(';') { continue; }
        if line.starts_with('}') { break; }
        if let Some(lb) = label_of(line) { curb = lb; blocks.insert(curb.clone(), code.len() as u32); first = false; continue; }
        if first { blocks.insert(curb.clone(), 0); first = false; }
        let mut text = line.to_string();
        if line.trim_start().starts_with("switch") && !line.contains(']') { loop { let n = lines.next().unwrap(); text.push(' '); text.push_str(n); if n.contains(']') { break; } } }
        let mut l = Lx::new(&text);
        let mut dst = None;
        if let (Some(T::Loc(n)), Some(T::P('='))) = (l.t.get(0), l.t.get(1)) { dst = Some(n.clone()); l.i = 2; }
        let op = match l.next() { T::Id(s) => s, t => panic!("op {:?} in {}", t, line) };
        let dn = dst.clone().unwrap_or_default();
        match op {
            "phi" => {
                let ty = l.ty(); let d = fb.def(&dn, &ty); let mut inc = vec![];
                loop { l.exp('['); let v = fb.val(&mut l, &ty, ar); l.exp(','); let b = match l.next() { T::Loc(n) => n, t => panic!("{:?}", t) }; l.exp(']'); inc.push((v, b)); if !l.eat(',') { break; } if !l.is_p('[') { break; } }
                phis.entry(curb.clone()).or_default().push((d, inc));
            }
            "br" => {
                if l.eat_id("label") { let b = match l.next() { T::Loc(n) => n, _ => panic!() }; terms.push((code.len(), curb.clone(), Term::Br(b))); code.push(I::Unreachable); }
                else { let (_, c) = fb.tv(&mut l, ar); l.exp(','); l.eat_id("label"); let t = match l.next() { T::Loc(n) => n, _ => panic!() }; l.exp(','); l.eat_id("label"); let f = match l.next() { T::Loc(n) => n, _ => panic!() }; terms.push((code.len(), curb.clone(), Term::CBr(c[0], t, f))); code.push(I::Unreachable); }
            }
            "switch" => {
                let (ty, v) = fb.tv(&mut l, ar); l.exp(','); l.eat_id("label"); let d = match l.next() { T::Loc(n) => n, _ => panic!() }; l.exp('[');
                let mut cs = vec![];
                while !l.eat(']') { let t = l.ty(); let mut k = vec![]; env.cst(&mut l, &t, &mut k); l.exp(','); l.eat_id("label"); let b = match l.next() { T::Loc(n) => n, _ => panic!() }; cs.push((k[0] as u64, b)); }
                if ty.bits() > 64 { code.push(I::Unsupported(text.clone())); } else {
                terms.push((code.len(), curb.clone(), Term::Sw(v[0], ty.bits(), d, cs))); code.push(I::Unreachable); }
            }
            "ret" => { if l.eat_id("void") { code.push(I::Ret(Box::new([]))); } else { let (_, v) = fb.tv(&mut l, ar); code.push(I::Ret(v.into())); } }
            "unreachable" => code.push(I::Unreachable),
            "fence" => {}
            "alloca" => {
                if l.eat_id("inalloca") {} let ty = l.ty(); let mut n = O::K(1); let mut al = ty.align().max(1);
                while l.eat(',') { if l.eat_id("align") { al = l.num(); } else if l.is_ty() { let (_, v) = fb.tv(&mut l, ar); n = v[0]; } else { l.i += 1; } }
                let d = fb.def(&dn, &Ty::Ptr); code.push(I::Alloca { d, size: ty.size(), n, align: al });
            }
            "load" => {
                while l.is_id("volatile") || l.is_id("atomic") { l.i += 1; }
                let ty = l.ty(); l.exp(','); let (_, a) = fb.tv(&mut l, ar); let d = fb.def(&dn, &ty);
                if ty.is_scalar() && ty.bits() <= 64 { code.push(I::Load { d, w: ty.bits(), a: a[0] }); }
                else { code.push(I::LoadM { d, parts: ty.leaves().into(), a: a[0] }); }
            }
            "store" => {
                while l.is_id("volatile") || l.is_id("atomic") { l.i += 1; }
                let (ty, v) = fb.tv(&mut l, ar); l.exp(','); let (_, a) = fb.tv(&mut l, ar);
                if ty.is_scalar() && ty.bits() <= 64 { code.push(I::Store { w: ty.bits(), v: v[0], a: a[0] }); }
                else if matches!(&ty, Ty::Vec(_, t) if **t == Ty::Int(1)) { code.push(I::StoreBits { v: v.into(), a: a[0] }); }
                else { code.push(I::StoreM { parts: ty.leaves().into(), v: v.into(), a: a[0] }); }
            }
            "getelementptr" => {
                while matches!(l.peek(), Some(T::Id(x)) if matches!(*x, "inbounds" | "nuw" | "nusw")) { l.i += 1; }
                let bt = l.ty(); l.exp(','); let (pt, base) = fb.tv(&mut l, ar); assert_eq!(pt, Ty::Ptr);
                let d = fb.def(&dn, &Ty::Ptr); let mut off = 0i64; let mut idx = vec![]; let mut cur = bt; let mut first = true;
                while l.eat(',') {
                    if matches!(l.peek(), Some(T::Meta)) { break; }
                    let (it, v) = fb.tv(&mut l, ar); let w = it.bits();
                    let kc = if let O::K(k) = v[0] { Some(crate::expr::sext128(k as u128, w) as i64) } else { None };
                    if first { first = false; let sz = cur.size() as i64; match kc { Some(k) => off = off.wrapping_add(k.wrapping_mul(sz)), None => idx.push((v[0], w, sz)) } }
                    else { match kc { Some(k) if matches!(cur, Ty::Struct(..)) => { let (o, t) = step(&cur, k as u64); off += o as i64; cur = t; } _ => { let e = match &cur { Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => panic!() }; let sz = e.size() as i64; match kc { Some(k) => off += k * sz, None => idx.push((v[0], w, sz)) } cur = e; } } }
                }
                if idx.is_empty() { code.push(I::Gep1 { d, base: base[0], off }); } else { code.push(I::Gep { d, base: base[0], off, idx: idx.into() }); }
            }
            "icmp" => {
                if l.is_id("samesign") { l.i += 1; }
                let p = match l.next() { T::Id(s) => match s { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!() }, _ => panic!() };
                let (ty, a) = fb.tv(&mut l, ar); l.exp(','); let b = fb.val(&mut l, &ty, ar);
                match &ty { Ty::Vec(n, t) => { let d = fb.def(&dn, &Ty::Vec(*n, Box::new(Ty::Int(1)))); let w = t.bits(); code.push(I::Multi((0..*n as usize).map(|i| I::Icmp { p, w, d: d + i as u32, a: a[i], b: b[i] }).collect())); } _ => { let d = fb.def(&dn, &Ty::Int(1)); code.push(I::Icmp { p, w: ty.bits(), d, a: a[0], b: b[0] }); } }
            }
            "select" => {
                let (ct, c) = fb.tv(&mut l, ar); l.exp(','); let (ty, a) = fb.tv(&mut l, ar); l.exp(','); let (_, b) = fb.tv(&mut l, ar);
                let d = fb.def(&dn, &ty); let lv = ty.leaves();
                if let Ty::Vec(..) = ct { code.push(I::Multi((0..c.len()).map(|i| I::Select { d: d + i as u32, c: c[i], ptr: false, w: Box::new([lv[i].0]), a: Box::new([a[i]]), b: Box::new([b[i]]) }).collect())); }
                else { code.push(I::Select { d, c: c[0], ptr: ty == Ty::Ptr, w: lv.iter().map(|x| x.0).collect(), a: a.into(), b: b.into() }); }
            }
            "trunc" | "zext" | "sext" => {
                while !l.is_ty() { l.i += 1; }
                let (ty, a) = fb.tv(&mut l, ar); assert!(l.eat_id("to")); let t2 = l.ty(); let d = fb.def(&dn, &t2);
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::Zext, _ => Cast::Sext };
                let (f, t) = (ty.leaves()[0].0, t2.leaves()[0].0);
                if a.len() == 1 { code.push(I::Cast { k, f, t, d, a: a[0] }); } else { code.push(I::Multi((0..a.len()).map(|i| I::Cast { k, f, t, d: d + i as u32, a: a[i] }).collect())); }
            }
            "bitcast" | "ptrtoint" | "inttoptr" | "freeze" | "ptrtoaddr" | "addrspacecast" => {
                let (ty, a) = fb.tv(&mut l, ar); let t2 = if op == "freeze" { ty.clone() } else { assert!(l.eat_id("to")); l.ty() };
                let d = fb.def(&dn, &t2);
                let (f, t): (Vec<u32>, Vec<u32>) = (ty.leaves().iter().map(|x| x.0).collect(), t2.leaves().iter().map(|x| x.0).collect());
                if f == t { if a.len() == 1 { code.push(I::Copy1 { d, a: a[0] }); } else { code.push(I::Copy { d, a: a.into() }); } }
                else if op != "bitcast" { let k = if f[0] > t[0] { Cast::Trunc } else { Cast::Zext }; code.push(I::Cast { k, f: f[0], t: t[0], d, a: a[0] }); }
                else { code.push(I::Bitcast { d, src: a.into_iter().zip(f).collect(), dst: t.into() }); }
            }
            "extractvalue" => {
                let (ty, a) = fb.tv(&mut l, ar); let mut cur = ty; let mut s = 0u32;
                while l.eat(',') { if matches!(l.peek(), Some(T::Meta)) { break; } let ix = l.num(); match cur.clone() { Ty::Struct(f, _) => { for t in &f[..ix as usize] { s += t.nleaves(); } cur = f[ix as usize].clone(); } Ty::Arr(_, t) => { s += ix as u32 * t.nleaves(); cur = *t; } _ => panic!() } }
                let d = fb.def(&dn, &cur); let n = cur.nleaves();
                code.push(I::Copy { d, a: a[s as usize..(s + n) as usize].to_vec().into() });
            }
            "insertvalue" => {
                let (ty, mut a) = fb.tv(&mut l, ar); l.exp(','); let (_, v) = fb.tv(&mut l, ar); let mut cur = ty.clone(); let mut s = 0u32;
                while l.eat(',') { if matches!(l.peek(), Some(T::Meta)) { break; } let ix = l.num(); match cur.clone() { Ty::Struct(f, _) => { for t in &f[..ix as usize] { s += t.nleaves(); } cur = f[ix as usize].clone(); } Ty::Arr(_, t) => { s += ix as u32 * t.nleaves(); cur = *t; } _ => panic!() } }
                for (i, x) in v.into_iter().enumerate() { a[s as usize + i] = x; }
                let d = fb.def(&dn, &ty); code.push(I::Copy { d, a: a.into() });
            }
            "extractelement" => { let (ty, a) = fb.tv(&mut l, ar); l.exp(','); let (_, ix) = fb.tv(&mut l, ar); let et = match &ty { Ty::Vec(_, t) => (**t).clone(), _ => panic!() }; let d = fb.def(&dn, &et); match ix[0] { O::K(k) => code.push(I::Copy1 { d, a: a[k as usize] }), _ => code.push(I::Unsupported(text.clone())) } }
            "insertelement" => { let (ty, mut a) = fb.tv(&mut l, ar); l.exp(','); let (_, v) = fb.tv(&mut l, ar); l.exp(','); let (_, ix) = fb.tv(&mut l, ar); let d = fb.def(&dn, &ty); match ix[0] { O::K(k) => { a[k as usize] = v[0]; code.push(I::Copy { d, a: a.into() }) } _ => code.push(I::Unsupported(text.clone())) } }
            "shufflevector" => {
                let (ty, a) = fb.tv(&mut l, ar); l.exp(','); let (_, b) = fb.tv(&mut l, ar); l.exp(','); let mt = l.ty(); let mut m = vec![]; env.cst(&mut l, &mt, &mut m);
                let et = match &ty { Ty::Vec(_, t) => t.clone(), _ => panic!() }; let d = fb.def(&dn, &Ty::Vec(m.len() as u32, et));
                let all: Vec<O> = a.into_iter().chain(b).collect();
                code.push(I::Copy { d, a: m.iter().map(|k| all[*k as usize % all.len()]).collect() });
            }
            "atomicrmw" => {
                if l.eat_id("volatile") {}
                let o = match l.next() { T::Id(s) => s, _ => panic!() }; let (_, a) = fb.tv(&mut l, ar); l.exp(','); let (ty, v) = fb.tv(&mut l, ar); let d = fb.def(&dn, &ty);
                let o = match o { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, "umax" => 6, "umin" => 7, "nand" => 8, _ => 99 };
                if o == 99 { code.push(I::Unsupported(text.clone())) } else { code.push(I::Rmw { d, op: o, w: ty.bits(), a: a[0], v: v[0] }); }
            }
            "cmpxchg" => {
                while l.is_id("weak") || l.is_id("volatile") { l.i += 1; }
                let (_, a) = fb.tv(&mut l, ar); l.exp(','); let (ty, c) = fb.tv(&mut l, ar); l.exp(','); let (_, n) = fb.tv(&mut l, ar);
                let d = fb.def(&dn, &Ty::Struct(vec![ty.clone(), Ty::Int(1)], false)); code.push(I::CmpXchg { d, w: ty.bits(), a: a[0], c: c[0], n: n[0] });
            }
            "call" | "tail" | "musttail" | "notail" => {
                l.skip_to_ty_call();
                let rt = l.ty();
                if l.is_p('(') { l.skip_paren(); }
                let callee = l.next();
                if callee == T::Id("asm") { let d = if dst.is_some() { fb.def(&dn, &rt) } else { 0 }; let _ = d; if text.contains("\"\"") { } else { code.push(I::Unsupported(text.clone())); } continue; }
                l.exp('(');
                let mut args = vec![]; let mut aw = 0;
                if !l.eat(')') { loop { if l.is_id("metadata") { l.i += 1; let mut d = 0; loop { match l.peek().unwrap() { T::P('(') | T::P('{') => d += 1, T::P(')') if d == 0 => break, T::P(',') if d == 0 => break, T::P(')') | T::P('}') => d -= 1, _ => {} } l.i += 1; } } else { let (t, v) = fb.tv(&mut l, ar); if args.is_empty() && t.nleaves() > 0 { aw = t.leaves()[0].0; } args.extend(v); } if l.eat(',') { continue; } l.exp(')'); break; } }
                let nret = rt.nleaves();
                let d = if dst.is_some() { fb.def(&dn, &rt) } else { fb.n += nret.max(1); fb.n - nret.max(1) };
                match callee {
                    T::Glob(n) => {
                        if n.starts_with("llvm.") {
                            match intrinsic(&n) { Some(Intr::Nop) | Some(Intr::Assume) => {} Some(id) => code.push(I::Intr { d, id, w: aw, args: args.into() }), None => code.push(I::Unsupported(n)) }
                        } else { code.push(I::Call { d, nret, f: Callee::Fn(*env.fidx.get(&n).unwrap_or_else(|| panic!("fn {}", n))), args: args.into() }); }
                    }
                    T::Loc(n) => { let s = fb.def(&n, &Ty::Ptr); code.push(I::Call { d, nret, f: Callee::Ind(O::R(s)), args: args.into() }); }
                    _ => code.push(I::Unsupported(text.clone())),
                }
            }
            o => {
                if let Some(bo) = binop(o) {
                    while !l.is_ty() { l.i += 1; }
                    let (ty, a) = fb.tv(&mut l, ar); l.exp(','); let b = fb.val(&mut l, &ty, ar); let d = fb.def(&dn, &ty);
                    let w = ty.leaves()[0].0;
                    if a.len() == 1 { code.push(I::Bin { op: bo, w, d, a: a[0], b: b[0] }); } else { code.push(I::Multi((0..a.len()).map(|i| I::Bin { op: bo, w, d: d + i as u32, a: a[i], b: b[i] }).collect())); }
                } else { if dst.is_some() { fb.def(&dn, &Ty::Int(64)); } code.push(I::Unsupported(text.clone())); }
            }
        }
    }
    // resolve terminators
    let mut edges: Vec<EdgeD> = vec![];
    let mut mk = |from: &str, to: &str| -> u32 {
        let mut copies = vec![];
        if let Some(ps) = phis.get(to) { for (d, inc) in ps { let (v, _) = inc.iter().find(|(_, b)| b == from).unwrap_or_else(|| panic!("phi {} from {} in {}", to, from, name)); for (i, o) in v.iter().enumerate() { let dd = *d + i as u32; if let O::R(s) = o { if *s == dd { continue; } } copies.push((dd, *o)); } } }
        let mut overlap = false;
        for i in 0..copies.len() { for j in 0..i { if let O::R(s) = copies[i].1 { if s == copies[j].0 { overlap = true; } } } }
        edges.push(EdgeD { to: blocks[to], copies: copies.into(), overlap });
        edges.len() as u32 - 1
    };
    for (at, from, t) in terms {
        code[at] = match t {
            Term::Br(b) => I::Br(mk(&from, &b)),
            Term::CBr(c, t, f) => I::CBr { c, t: mk(&from, &t), f: mk(&from, &f) },
            Term::Sw(v, w, d, cs) => { let def = mk(&from, &d); let mut seen: FxMap<String, u32> = Default::default(); seen.insert(d.clone(), def); I::Switch { v, w, def, cases: cs.into_iter().map(|(k, b)| { let e = *seen.entry(b.clone()).or_insert_with(|| mk(&from, &b)); (k, e) }).collect() } }
            Term::Done => unreachable!(),
        };
    }
    Func { name: name.to_string(), nargs, nslots: fb.n, code, edges, is_panic: is_panic_name(name) }
}
impl<'a> Lx<'a> {
    fn skip_to_ty_call(&mut self) { while !self.is_ty() { match self.next() { T::Id("align") => { if matches!(self.peek(), Some(T::Num(_))) { self.i += 1; } } T::Id(_) => { if self.is_p('(') { self.skip_paren(); } } T::Meta => {} t => panic!("call {:?}", t) } } }
}
