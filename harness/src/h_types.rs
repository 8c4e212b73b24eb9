//! P10: diagnostics about operands: count and types of operands of folded and stacked instructions, kinds of immediates.
use crate::common::*;
use crate::instrs::INSTRS;
use crate::sym::*;
use lsp_types::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V { I32, I64, F32, F64, V128, Func, Any }
use V::*;
fn name_of(v: V) -> &'static str { match v { I32 => "i32", I64 => "i64", F32 => "f32", F64 => "f64", V128 => "v128", Func => "funcref", Any => "?" } }
fn scalar(s: &str) -> V { match s { "i32" => I32, "i64" => I64, "f32" => F32, "f64" => F64, _ => V128 } }
fn lane(s: &str) -> V { if s.starts_with("i64") { I64 } else if s.starts_with("f32") { F32 } else if s.starts_with("f64") { F64 } else { I32 } }
/// The signature of an instruction by the rules of the WebAssembly specification: (immediates, operands, result)
pub fn sig(n: &str) -> (&'static str, Vec<V>, Option<V>) {
    let Some((t, op)) = n.split_once('.') else { return match n { "drop" => ("", vec![Any], None), _ => ("", vec![Any, Any, I32], Some(Any)) } };
    match n {
        "local.get" => return (" $i", vec![], Some(I32)),
        "local.set" => return (" $i", vec![Any], None),
        "local.tee" => return (" $i", vec![Any], Some(Any)),
        "global.get" => return (" $gi", vec![], Some(I32)),
        "global.set" => return (" $gi", vec![Any], None),
        "table.get" => return (" $t", vec![I32], Some(Any)),
        "table.set" => return (" $t", vec![I32, Any], None),
        "table.size" => return (" $t", vec![], Some(I32)),
        "table.grow" => return (" $t", vec![Any, I32], Some(I32)),
        "table.fill" => return (" $t", vec![I32, Any, I32], None),
        "table.copy" => return (" $t $t", vec![I32, I32, I32], None),
        "table.init" => return (" $t 0", vec![I32, I32, I32], None),
        "memory.size" => return ("", vec![], Some(I32)),
        "memory.grow" => return ("", vec![I32], Some(I32)),
        "memory.copy" | "memory.fill" => return ("", vec![I32, I32, I32], None),
        "memory.init" => return (" 0", vec![I32, I32, I32], None),
        "data.drop" | "elem.drop" => return (" 0", vec![], None),
        "ref.null" => return (" func", vec![], Some(Any)),
        "ref.is_null" => return ("", vec![Any], Some(I32)),
        "ref.func" => return (" $i", vec![], Some(Func)),
        "v128.not" => return ("", vec![V128], Some(V128)),
        "v128.any_true" => return ("", vec![V128], Some(I32)),
        "v128.bitselect" => return ("", vec![V128, V128, V128], Some(V128)),
        "v128.and" | "v128.andnot" | "v128.or" | "v128.xor" => return ("", vec![V128, V128], Some(V128)),
        _ => {}
    }
    let v = scalar(t);
    let simd = v == V128;
    if op.starts_with("load") { return if op.ends_with("_lane") { (" offset=1 0", vec![I32, V128], Some(V128)) } else { (" offset=1", vec![I32], Some(v)) } }
    if op.starts_with("store") { return if op.ends_with("_lane") { (" offset=1 0", vec![I32, V128], None) } else { (" offset=1", vec![I32, v], None) } }
    let begins = |xs: &[&str]| xs.iter().any(|x| op.starts_with(x));
    if !simd {
        let t = match op { "const" => return (" 1", vec![], Some(v)), _ => v };
        if op == "eqz" { return ("", vec![t], Some(I32)) }
        if matches!(op, "eq" | "ne") || begins(&["lt", "gt", "le", "ge"]) { return ("", vec![t, t], Some(I32)) }
        if let Some((_, s)) = op.split_once('_') { // conversions name their source
            for s in s.split('_') { match s { "i32" => return ("", vec![I32], Some(t)), "i64" => return ("", vec![I64], Some(t)), "f32" => return ("", vec![F32], Some(t)), "f64" => return ("", vec![F64], Some(t)), _ => {} } }
        }
        if matches!(op, "clz" | "ctz" | "popcnt" | "abs" | "neg" | "ceil" | "floor" | "trunc" | "nearest" | "sqrt") || begins(&["extend"]) { return ("", vec![t], Some(t)) }
        return ("", vec![t, t], Some(t));
    }
    let l = lane(t);
    if op == "splat" { return ("", vec![l], Some(V128)) }
    if begins(&["extract_lane"]) { return (" 0", vec![V128], Some(l)) }
    if begins(&["replace_lane"]) { return (" 0", vec![V128, l], Some(V128)) }
    if matches!(op, "shl" | "shr_s" | "shr_u") { return ("", vec![V128, I32], Some(V128)) }
    if matches!(op, "all_true" | "bitmask") { return ("", vec![V128], Some(I32)) }
    if matches!(op, "abs" | "neg" | "popcnt" | "ceil" | "floor" | "trunc" | "nearest" | "sqrt") || begins(&["extend_", "extadd_", "convert_", "trunc_sat_", "demote_", "promote_"]) { return ("", vec![V128], Some(V128)) }
    ("", vec![V128, V128], Some(V128))
}

// ---------------------------------------------------------------- documents
const TYPES: [V; 5] = [I32, I64, F32, F64, V128];
const LETTERS: [u8; 5] = *b"ijfdv";
fn letter() -> u8 { let c = byte(b'd', b'v'); assume(c == b'i' || c == b'j' || c == b'f' || c == b'd' || c == b'v'); c }
fn type_of(c: u8) -> V { if c == b'i' { I32 } else if c == b'j' { I64 } else if c == b'f' { F32 } else if c == b'd' { F64 } else { V128 } }
const LOCALS: &str = "(param $i i32) (param $j i64) (param $f f32) (param $d f64) (param $v v128)";
const ENV: &str = "(table $t 1 funcref) (memory 1) (global $gi i32 (i32.const 0)) (func $i (param i32)) (func $j (param i64)) (func $f (param f32)) (func $d (param f64)) (func $v (param v128)) ";
struct B { s: Vec<u8> }
impl B {
    fn t(&mut self, s: &str) { self.s.extend_from_slice(s.as_bytes()) }
    fn done(self) -> String { unsafe { String::from_utf8_unchecked(self.s) } }
}
fn operand(b: &mut B, c: u8) -> (usize, usize) { b.t(" "); let a = b.s.len(); b.t("(local.get $"); b.s.push(c); b.t(")"); (a, b.s.len()) }
fn at(src: &str, s: (usize, usize)) -> Range { let _ = src; Range::new(Position::new(0, s.0 as u32), Position::new(0, s.1 as u32)) }
fn span() -> (usize, usize) { (param(0, 0) as usize, (param(1, 9999) as usize).min(INSTRS.len())) }
struct Want { count: Option<((usize, usize), usize, usize)>, wrong: Vec<((usize, usize), V, V)>, decl: Vec<(usize, usize)> }
/// where the callee declares the param: the related information says so (`decl` is as long as `wrong`, or empty when the declaration has no such place)
fn related_ok(src: &str, w: &Want, d: &Diagnostic) -> bool {
    let Some(r) = &d.related_information else { return w.decl.is_empty() };
    r.len() == 1 && r[0].location.uri == uri() && w.wrong.iter().zip(&w.decl).any(|((s, e, g), p)| d.range == at(src, *s) && d.message.contains(name_of(*e)) && d.message.contains(name_of(*g)) && r[0].location.range == at(src, *p))
}
fn verdict(src: &str, w: &Want) {
    let mut s = service();
    s.commit(uri(), src.into());
    let ds = diags(&s);
    for d in &ds {
        check(d.severity == Some(DiagnosticSeverity::ERROR), "severity");
        let ok = match &w.count { Some((s, e, g)) => d.range == at(src, *s) && d.message.contains(digit(*e)) && d.message.contains(digit(*g)), None => false }
            || w.wrong.iter().any(|(s, e, g)| d.range == at(src, *s) && d.message.contains(name_of(*e)) && d.message.contains(name_of(*g)));
        check(ok, "a diagnostic about operands that are right");
        if !w.decl.is_empty() && !matches!(&w.count, Some((s, ..)) if d.range == at(src, *s)) { check(related_ok(src, w, d), "the related information of a wrong argument is the declaration of the param"); reach("related") }
    }
    if let Some((s, ..)) = &w.count { check(ds.iter().any(|d| d.range == at(src, *s)), "a wrong number of operands is not reported"); reach("count") }
    for (s, ..) in &w.wrong { check(ds.iter().any(|d| d.range == at(src, *s)), "an operand of the wrong type is not reported"); reach("type") }
    check(ds.len() == w.wrong.len() + w.count.is_some() as usize, "each mistake is reported once");
    if ds.is_empty() { reach("fine") }
}
fn digit(n: usize) -> &'static str { ["0", "1", "2", "3", "4", "5", "6"][n] }
fn imms(s: &str) -> usize { s.bytes().filter(|c| *c == b' ').count() }

/// immediates that may be omitted, in every form
fn forms(n: &str, imm: &'static str) -> &'static str {
    let op = n.split_once('.').map_or("", |x| x.1);
    match n {
        "table.get" | "table.set" | "table.grow" | "table.size" | "table.fill" => choose(&["", " $t", " 0"]),
        "table.copy" => choose(&["", " $t $t"]),
        "table.init" => choose(&[" 0", " $t 0"]),
        _ if op.starts_with("load") || op.starts_with("store") => if op.ends_with("_lane") { choose(&[" 0", " offset=1 0", " offset=0 align=1 0"]) } else { choose(&["", " offset=1", " align=1", " offset=2 align=1"]) },
        _ => imm,
    }
}
/// every instruction with operands of any number and types. params: lo, hi (instructions), how many operands more/less
pub fn op_sig() {
    let (lo, hi) = span();
    let n = INSTRS[lo + pick(hi - lo)];
    let (imm, want, _) = sig(n);
    let imm = forms(n, imm);
    let given = match param(2, 0) { 0 => want.len(), 1 => want.len() + 1, _ => { assume(!want.is_empty()); want.len() - 1 } };
    let mut b = B { s: Vec::with_capacity(512) };
    b.t("(module "); b.t(ENV); b.t("(func "); b.t(LOCALS); b.t(" ");
    let a = b.s.len();
    b.t("("); b.t(n); b.t(imm);
    let mut w = Want { count: None, wrong: vec![], decl: vec![] };
    for k in 0..given {
        let c = if param(2, 0) == 0 { letter() } else { LETTERS[k % 5] };
        let s = operand(&mut b, c);
        if k < want.len() && want[k] != Any { let t = type_of(c); if t != want[k] { w.wrong.push((s, want[k], t)) } }
    }
    b.t(")");
    if given != want.len() { w.count = Some(((a, b.s.len()), want.len() + imms(imm), given + imms(imm))) }
    b.t("))");
    let src = b.done();
    note(&src);
    verdict(&src, &w);
}
/// the result of every instruction as the operand of a call of a function with a param of any type
pub fn op_result() {
    let (lo, hi) = span();
    let n = INSTRS[lo + pick(hi - lo)];
    let (imm, want, res) = sig(n);
    let mut b = B { s: Vec::with_capacity(512) };
    b.t("(module "); b.t(ENV); b.t("(func "); b.t(LOCALS); b.t(" ");
    let a = b.s.len();
    let c = letter();
    b.t("(call $"); b.s.push(c); b.t(" ");
    let o = b.s.len();
    b.t("("); b.t(n); b.t(imm);
    for k in want.iter() { operand(&mut b, match k { I64 => b'j', F32 => b'f', F64 => b'd', V128 => b'v', _ => b'i' }); }
    b.t(")");
    let e = b.s.len();
    b.t(")");
    let mut w = Want { count: None, wrong: vec![], decl: vec![] };
    match res {
        None => w.count = Some(((a, b.s.len()), 2, 1)),
        Some(Any) => {}
        Some(r) => { let t = type_of(c); if t != r { w.wrong.push(((o, e), t, r)) } }
    }
    b.t("))");
    let src = b.done();
    note(&src);
    verdict(&src, &w);
}
/// Calls: the callee declared in every way, operands of every kind. params: max params, max operands, kinds of operands (bitmask)
pub fn op_call() {
    let np = pick(param(0, 2) as usize + 1);
    let mut b = B { s: Vec::with_capacity(700) };
    let mut ps = vec![];
    for _ in 0..np { ps.push(TYPES[pick(param(3, 3) as usize)]) }
    let mut decl: Vec<(usize, usize)> = vec![];
    let mut sigtext = |b: &mut B, ps: &[V], one: bool| { decl.clear(); let mut ty = |b: &mut B, p: V| { let a = b.s.len(); b.t(name_of(p)); decl.push((a, b.s.len())) };
        if one { if !ps.is_empty() { b.t(" (param"); for p in ps { b.t(" "); ty(b, *p) } b.t(")") } } else { for p in ps { b.t(" (param "); ty(b, *p); b.t(")") } } };
    let how = pick(7);
    b.t("(module (global $gi i32 (i32.const 0)) (global $gj i64 (i64.const 0)) (global $gf (mut f32) (f32.const 0)) ");
    match how {
        0 => { b.t("(func $c"); sigtext(&mut b, &ps, false); b.t(")") }
        1 => { b.t("(func $c"); sigtext(&mut b, &ps, true); b.t(")") }
        2 => { b.t("(type $t (func"); sigtext(&mut b, &ps, false); b.t(")) (func $c (type $t))") }
        3 => { b.t("(type $t (func"); sigtext(&mut b, &ps, true); b.t(")) (func $c (type $t)"); sigtext(&mut b, &ps, false); b.t(")") }
        4 => { b.t("(import \"a\" \"b\" (func $c"); sigtext(&mut b, &ps, false); b.t("))") }
        6 => { drop(sigtext); decl.clear(); b.t("(func $c"); for (i, p) in ps.iter().enumerate() { b.t(" "); let a = b.s.len(); b.t("(param $p"); b.t(digit(i)); b.t(" "); b.t(name_of(*p)); b.t(")"); decl.push((a, b.s.len())) } b.t(")") }
        _ => { b.t("(type $t (func"); sigtext(&mut b, &ps, false); b.t(")) (import \"a\" \"b\" (func $c (type $t)))") }
    }
    b.t(" (func $one (result f32) (f32.const 0)) (func $two (result i32) (result i64) (i32.const 0) (i64.const 0)) (func $both (result f32 i32) (f32.const 0) (i32.const 0)) (func $none) ");
    b.t("(func "); b.t(LOCALS); b.t(" ");
    let a = b.s.len();
    b.t("(call $c");
    let no = pick(param(1, 2) as usize + 1);
    let mut got: Vec<(V, (usize, usize))> = vec![];
    let mut unknown = false;
    for _ in 0..no {
        let (k, mut o) = (pick(8), b.s.len() + 1);
        let vs: &[V] = match k {
            0 => { let c = letter(); assume(c == b'i' || c == b'j' || c == b'f'); o = operand(&mut b, c).0; match type_of(c) { I32 => &[I32], I64 => &[I64], _ => &[F32] } }
            1 => { let c = letter(); assume(c == b'i' || c == b'j' || c == b'f'); b.t(" (global.get $g"); b.s.push(c); b.t(")"); match type_of(c) { I32 => &[I32], I64 => &[I64], _ => &[F32] } }
            2 => { b.t(" (call $one)"); &[F32] }
            3 => { b.t(" (call $two)"); &[I32, I64] }
            4 => { b.t(" (call $both)"); &[F32, I32] }
            5 => { b.t(" (call $none)"); &[] }
            6 => { b.t(" (block (result i32) (i32.const 0))"); unknown = true; &[] }
            _ => { b.t(" (unreachable)"); unknown = true; &[] }
        };
        if !unknown { let e = b.s.len(); for v in vs { got.push((*v, (o, e))) } }
    }
    b.t(")");
    let mut w = Want { count: None, wrong: vec![], decl: vec![] };
    for (i, (p, (g, s))) in ps.iter().zip(&got).enumerate() { if p != g { w.wrong.push((*s, *p, *g)); if matches!(how, 0 | 1 | 3 | 6) { w.decl.push(decl[i]) } } }
    if !unknown && got.len() != ps.len() { w.count = Some(((a, b.s.len()), ps.len() + 1, got.len() + 1)) }
    b.t("))");
    let src = b.done();
    note(&src);
    // one operand can stand for two params: then it is reported per param
    verdict(&src, &w);
    reach(if unknown { "unknown" } else { "known" });
}
/// Instructions in sequence: a stack machine says whether they are well typed and where the first mistake is.
pub fn op_stack() {
    let n = param(0, 3) as usize;
    let mut b = B { s: Vec::with_capacity(500) };
    b.t("(module (func $c (param i32 i64) (result i64 i32) (local.get 1) (local.get 0)) (func "); b.t(LOCALS);
    let mut stack: Vec<(V, (usize, usize))> = vec![];
    let mut unknown = false;
    let mut bad: Vec<(usize, usize)> = vec![];
    let mut flat = false;
    for _ in 0..n {
        b.t(" ");
        let a = b.s.len();
        let k = pick(11);
        let (pops, pushes): (Vec<V>, Vec<V>) = match k {
            0 => { let c = letter(); assume(c == b'i' || c == b'j' || c == b'f'); b.t("local.get $"); b.s.push(c); (vec![], vec![type_of(c)]) }
            1 => { b.t("i32.add"); (vec![I32, I32], vec![I32]) }
            2 => { b.t("i64.eqz"); (vec![I64], vec![I32]) }
            3 => { b.t("drop"); (vec![Any], vec![]) }
            4 => { b.t("call $c"); (vec![I32, I64], vec![I64, I32]) }
            5 => { b.t("(i64.const 1)"); (vec![], vec![I64]) }
            6 => { b.t("(i32.add (i32.const 1) (i32.const 2))"); (vec![], vec![I32]) }
            7 => { b.t("local.set $i"); (vec![Any], vec![]) }
            8 => { b.t("i32.const 1"); (vec![], vec![I32]) }
            9 => { b.t("unreachable"); (vec![], vec![]) }
            _ => { b.t("block (result i32) i32.const 0 end"); (vec![], vec![]) }
        };
        let e = b.s.len();
        if !matches!(k, 5 | 6) { flat = true }
        if k >= 9 { unknown = true; stack.clear(); continue }
        if !bad.is_empty() { continue }
        if stack.len() < pops.len() && !unknown { bad.push((a, e)); continue }
        for p in pops.iter().rev() { if let Some((g, s)) = stack.pop() { if *p != Any && g != Any && g != *p { bad.push(s) } } }
        for p in pushes { stack.push((p, (a, e))) }
    }
    b.t("))");
    let src = b.done();
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let ds = diags(&s);
    if bad.is_empty() { check(ds.is_empty(), "a well typed sequence is reported"); reach("fine") }
    else {
        check(flat, "model"); // folded constants alone are never wrong
        for x in &bad { check(ds.iter().any(|d| d.range == at(&src, *x)), "the first ill typed instruction of a sequence is not reported") }
        reach("ill typed")
    }
}
/// immediates: a literal of the wrong kind is reported at it, one of the right kind is not
pub fn op_immediate() {
    const INDEX: &[&str] = &["call", "local.get", "local.set", "local.tee", "global.get", "global.set", "table.get", "table.set", "table.grow", "table.size", "table.fill", "table.init", "table.copy", "ref.func", "memory.init", "data.drop", "elem.drop", "br", "br_if", "return_call", "br_table", "i8x16.extract_lane_s", "i8x16.extract_lane_u", "i8x16.replace_lane", "i16x8.extract_lane_s", "i16x8.extract_lane_u", "i16x8.replace_lane", "i32x4.extract_lane", "i32x4.replace_lane", "i64x2.extract_lane", "i64x2.replace_lane", "f32x4.extract_lane", "f32x4.replace_lane", "f64x2.extract_lane", "f64x2.replace_lane"];
    let g = pick(4);
    let name = match g { 0 => choose(INDEX), 1 => choose(&["i32.const", "i64.const"]), 2 => choose(&["f32.const", "f64.const"]), _ => choose(&["i32.load", "i64.load", "f32.load", "f64.load", "i32.load8_s", "i32.load8_u", "i32.load16_s", "i32.load16_u", "i64.load8_s", "i64.load8_u", "i64.load16_s", "i64.load16_u", "i64.load32_s", "i64.load32_u",
        "i32.store", "i64.store", "f32.store", "f64.store", "i32.store8", "i32.store16", "i64.store8", "i64.store16", "i64.store32", "v128.load", "v128.load8x8_s", "v128.load8x8_u", "v128.load16x4_s", "v128.load16x4_u", "v128.load32x2_s", "v128.load32x2_u",
        "v128.load8_splat", "v128.load16_splat", "v128.load32_splat", "v128.load64_splat", "v128.load32_zero", "v128.load64_zero", "v128.store"]) };
    let mut b = B { s: Vec::with_capacity(100) };
    b.t("(module (func ("); b.t(name); b.t(" ");
    let a = b.s.len();
    let k = pick(8);
    match k {
        6 => { b.s.push(if flag() { b'-' } else { b'+' }); b.s.push(byte(b'0', b'9')) }
        7 => { b.t("0x"); b.s.push(if flag() { byte(b'0', b'9') } else { byte(b'a', b'f') }) }
        0 => { b.t("$"); b.s.push(byte(b'a', b'z')) }
        1 => b.s.push(byte(b'0', b'9')),
        2 => { b.s.push(byte(b'0', b'9')); b.t("."); b.s.push(byte(b'0', b'9')) }
        3 => { b.t("\""); b.s.push(byte(b'a', b'z')); b.t("\"") }
        4 => { b.t("offset="); b.s.push(byte(b'0', b'9')) }
        _ => { b.t("align="); b.s.push(byte(b'1', b'9')) }
    }
    let r = (a, b.s.len());
    let right = match g { 0 => matches!(k, 0 | 1 | 7), 1 => matches!(k, 1 | 6 | 7), 2 => matches!(k, 1 | 2 | 6 | 7), _ => matches!(k, 4 | 5) };
    b.t(")))");
    let src = b.done();
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let n = diags(&s).iter().filter(|d| d.range == at(&src, r) && !d.message.starts_with("cannot find")).count();
    check(n == !right as usize, "immediates of the wrong kind, and only those, are reported");
    reach(if right { "right" } else { "wrong" });
}
/// modules after the first are reported, each at its own range; nothing else is
pub fn modules() {
    let n = pick(4);
    let mut b = B { s: vec![] };
    let mut v = vec![];
    for _ in 0..n {
        match pick(3) { 0 => {} 1 => b.t(" "), _ => { b.t("(;"); b.s.push(byte(b'a', b'z')); b.t(";)") } }
        let a = b.s.len();
        if flag() { b.t("(module $"); b.s.push(byte(b'a', b'b')); b.t(")") } else { b.t("(module)") }
        v.push((a, b.s.len()));
    }
    let src = b.done();
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let ds = diags(&s);
    check(ds.len() == n.saturating_sub(1), "every module but the first is reported");
    for x in v.iter().skip(1) { check(ds.iter().any(|d| d.range == at(&src, *x)), "at its range") }
    reach(if n > 1 { "several" } else { "one" });
}
