//! P06-P09: names. Documents are built from templates whose definition and reference slots are filled symbolically
//! (a name, whose letter is a symbolic byte, or no name / an index); the builder records every definition and reference
//! and an independent resolver (WebAssembly's index spaces and label scoping) says what each reference denotes.
//!
//! Template slots: {F} {T} {G} {M} {W}: definition of a function, type, global, memory, table (name optional), {n}: unnamed function;
//! {f} {t} {g} {m} {w}: reference to one; {P}: param/local (name optional, one type follows); {Q}: unnamed param/local
//! (type follows); {l}: reference to one; {B}: label of a block just opened; {C}: label of an `if` whose scope opens at
//! {o}; {e}: end of a label scope; {/}: the label of the block just closed, or nothing; {-}: that of the innermost open block, or nothing; {b}: label reference; {;}: a new module begins.
use crate::common::*;
use crate::sym::*;
use lsp_types::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum N { Func, Type, Global, Memory, Table, Local, Label }
pub struct Def { pub k: N, pub name: Option<(usize, usize)>, pub num: u32, pub shared: u32, pub scope: usize, pub sel: (usize, usize), pub kw: (usize, usize), /// where the enclosing parenthesis opens; number of the function; the type that follows
    pub open: usize, pub func: usize, pub ty: (usize, usize), pub module: usize }
pub struct Ref { pub k: N, pub span: (usize, usize), pub num: Option<u32>, pub scope: usize, pub labels: Vec<usize>, pub open: usize, pub func: usize, pub word: (usize, usize) }
pub struct D { pub shared: bool, pub parens: Vec<(usize, usize)>, pub src: String, pub defs: Vec<Def>, pub refs: Vec<Ref>, /// labels repeated after `end` or `else`: which definition, where
    pub again: Vec<(usize, (usize, usize))> }

/// which slots may be unnamed / numeric (a bound on the number of variants): bit i of the mask = slot i symbolic choice
pub struct Cfg { pub letters: u8, pub nums: usize, pub unnamed: bool }

pub fn build(t: &str, c: &Cfg) -> D {
    let b = t.as_bytes();
    let mut s: Vec<u8> = Vec::with_capacity(b.len() + 32);
    let mut d = D { shared: false, parens: vec![], src: String::new(), defs: vec![], refs: vec![], again: vec![] };
    let (mut module, mut func, mut nlocal) = (0usize, 0usize, 0u32);
    let mut counts = [0u32; 5];
    let mut labels: Vec<usize> = vec![]; // outermost first
    let mut closed = None;
    let mut pending_type: Option<usize> = None; // unnamed local: its location is the type that follows
    let mut word = (0, 0); // last word written
    let mut i = 0;
    let mut opens: Vec<usize> = vec![];
    let mut untyped = vec![];
    let name = |s: &mut Vec<u8>| -> (usize, usize) { let a = s.len(); s.push(b'$');  if param(6, 0) == 2 { s.push(b'a'); if flag() { s.push(b'b') } return (a, s.len()) } s.push(byte(b'a', b'a' + c.letters - 1)); if param(6, 0) == 1 { s.push(byte(b'a', b'b')); } (a, s.len()) };
    while i < b.len() {
        if b[i] != b'{' {
            let a = s.len();
            if is_idc(b[i]) {
                while i < b.len() && is_idc(b[i]) { s.push(b[i]); i += 1 }
                word = (a, s.len());
                if let Some(x) = pending_type.take() { d.defs[x].sel = word; }
                if matches!(&s[a..], b"i32" | b"i64" | b"f32" | b"f64" | b"v128") { for x in untyped.drain(..) { let y: &mut Def = &mut d.defs[x]; y.ty = word } }
            } else {
                if b[i] == b'(' { opens.push(a) }
                if b[i] == b')' { if let Some(o) = opens.pop() { d.parens.push((o, a + 1)) } }
                s.push(b[i]); i += 1
            }
            continue;
        }
        let x = b[i + 1];
        i += 3;
        let open = opens.last().copied().unwrap_or(0);
        match x {
            b'F' | b'n' | b'T' | b'G' | b'M' | b'W' => {
                let (k, j) = match x { b'F' | b'n' => (N::Func, 0), b'T' => (N::Type, 1), b'G' => (N::Global, 2), b'M' => (N::Memory, 3), _ => (N::Table, 4) };
                if k == N::Func { func += 1; nlocal = 0; labels.clear(); }
                let n = if x == b'n' || c.unnamed && flag() { None } else { Some(name(&mut s)) };
                d.defs.push(Def { k, name: n, num: counts[j], shared: counts.iter().sum(), scope: module, sel: n.unwrap_or(word), kw: word, open, func, ty: (0, 0), module });
                if k == N::Global { untyped.push(d.defs.len() - 1) }
                counts[j] += 1;
                // keep the text well formed: a slot always stands between blanks
            }
            b'P' | b'Q' => {
                let n = if x == b'Q' || c.unnamed && flag() { None } else { Some(name(&mut s)) };
                d.defs.push(Def { k: N::Local, name: n, num: nlocal, shared: nlocal, scope: func, sel: n.unwrap_or((0, 0)), kw: (0, 0), open, func, ty: (0, 0), module });
                untyped.push(d.defs.len() - 1);
                if n.is_none() { pending_type = Some(d.defs.len() - 1); }
                nlocal += 1;
            }
            b'B' | b'C' => {
                let n = if c.unnamed && flag() { None } else { Some(name(&mut s)) };
                d.defs.push(Def { k: N::Label, name: n, num: 0, shared: 0, scope: func, sel: n.unwrap_or(word), kw: word, open, func, ty: (0, 0), module });
                if x == b'B' { labels.push(d.defs.len() - 1); }
            }
            b'o' => { // reopen the most recent label that is not open: the enclosing `if`
                let mut j = d.defs.len() - 1;
                while d.defs[j].k != N::Label || labels.contains(&j) || closed_if(&s, d.defs[j].kw) { j -= 1 }
                labels.push(j);
            }
            b'e' => { closed = labels.pop(); }
            b'/' | b'-' => { // the label of the block just closed, or of the innermost open one, once more
                let j = if x == b'/' { closed.unwrap() } else { labels[labels.len() - 1] };
                if let Some(n) = d.defs[j].name { if flag() { let a = s.len(); for q in n.0..n.1 { let c = s[q]; s.push(c) } d.again.push((j, (a, s.len()))); } }
            }
            b';' => { module += 1; counts = [0; 5]; }
            _ => {
                let k = match x { b'f' => N::Func, b't' => N::Type, b'g' => N::Global, b'm' => N::Memory, b'w' => N::Table, b'l' => N::Local, _ => N::Label };
                let a = s.len();
                let n = if c.nums > 0 { pick(c.nums + 1) } else { 0 };
                let num = if n == 0 { name(&mut s); None } else {
                    match param(5, 0) { 1 => s.extend_from_slice(b"0x"), 2 => s.extend_from_slice(b"0_"), 3 => s.extend_from_slice(b"0x0_"), _ => {} }
                    s.push(b'0' + (n as u8 - 1));
                    Some(n as u32 - 1)
                };
                d.refs.push(Ref { k, span: (a, s.len()), num, scope: if matches!(k, N::Local | N::Label) { func } else { module }, labels: if k == N::Label { labels.clone() } else { vec![] }, open, func, word });
            }
        }
    }
    d.src = unsafe { String::from_utf8_unchecked(s) };
    d
}
fn closed_if(s: &[u8], kw: (usize, usize)) -> bool { &s[kw.0..kw.1] != b"if" }
pub fn text(d: &D, s: (usize, usize)) -> &str { &d.src[s.0..s.1] }
/// the definitions a reference denotes (several only when the name is defined more than once)
pub fn resolve(d: &D, r: &Ref) -> Vec<usize> {
    if r.k == N::Label {
        if let Some(n) = r.num { return if (n as usize) < r.labels.len() { vec![r.labels[r.labels.len() - 1 - n as usize]] } else { vec![] } }
        for &j in r.labels.iter().rev() { if let Some(n) = d.defs[j].name { if text(d, n) == text(d, r.span) { return vec![j] } } }
        return vec![];
    }
    let mut v = vec![];
    for (j, x) in d.defs.iter().enumerate() {
        if x.k != r.k || x.scope != r.scope { continue }
        let hit = match r.num { Some(n) => (if d.shared { x.shared } else { x.num }) == n, None => x.name.map_or(false, |n| text(d, n) == text(d, r.span)) };
        if hit { v.push(j) }
    }
    v
}
/// `br N` where N is the depth of the function body itself: valid, but it names no block
fn is_func_label(r: &Ref) -> bool { r.k == N::Label && r.num == Some(r.labels.len() as u32) }

/// templates by group
pub const TEMPLATES: &[&str] = &[
    // 0: functions, calls, start, export
    "(module (func {F}) (func {F} (call {f})) (start {f}))",
    "(module (func {F} (call {f}) (return_call {f})) (export \"e\" (func {f})))",
    "(module (import \"a\" \"b\" (func {F})) (func {F} (drop (ref.func {f}))))",
    "(module (func {F} (call {f}))){;}(module (func {F}) (func {F} (call {f})))",
    // 4: other index spaces next to each other
    "(module (global {G} i32 (i32.const 0)) (func {F} (call {f}) (drop (global.get {g}))) (global {G} i32 (i32.const 0)))",
    "(module (type {T} (func)) (func {F} (type {t}) (call {f})) (type {T} (func)))",
    "(module (type {T} (func)) (type {T} (func (param i32))) (import \"a\" \"b\" (func {F} (type {t}))) (func {F} (call_indirect (type {t}) (i32.const 0)) (block (type {t}))))",
    "(module (memory {M} 1) (memory {M} 1) (func {F}) (export \"m\" (memory {m})) (data (memory {m}) (i32.const 0) \"x\"))",
    "(module (table {W} 1 funcref) (func {F} (drop (table.get {w} (i32.const 0)))) (table {W} 1 funcref) (export \"t\" (table {w})))",
    "(module (table {W} 1 funcref) (table {W} 1 funcref) (func {n} (table.copy {w} {w} (i32.const 0) (i32.const 0) (i32.const 0))))",
    "(module (import \"a\" \"b\" (global {G} i32)) (import \"a\" \"b\" (memory {M} 1)) (import \"a\" \"b\" (table {W} 1 funcref)) (func {n} (drop (global.get {g})) (drop (table.size {w})) (global.set {g} (i32.const 0))) (export \"m\" (memory {m})))",
    // 11: locals
    "(module (func {n} (param {P} i32) (local {P} i64) (local.set {l} (local.get {l}))))",
    "(module (func {n} (param {Q} i32 {Q} i64) (param {P} i32) (local {Q} i32 {Q} i32) (drop (local.tee {l} (local.get {l})))))",
    "(module (func {F} (param {P} i32) (drop (local.get {l}))) (func {F} (param {P} i32) (local {P} i32) (drop (local.get {l}))))",
    // 14: labels
    "(module (func {n} (block {B} (loop {B} (br {b}) {e}) {e}) (block {B} (br_if {b} (i32.const 0)) {e})))",
    "(module (func {n} (block {B} (if {C} (i32.const 0) (then {o} (br {b}) {e}) (else {o} (br {b}) {e})) {e})))",
    "(module (func {n} (if {C} (i32.const 0) (then {o} (block {B} (br {b}) {e}) {e}))))",
    "(module (func {n} (block {B} (drop (block {B} (result i32) (br {b}) {e})) {e})))",
    "(module (func {n} (block {B} (if {C} (block {B} (result i32) (br {b}) {e}) (then {o} (br {b}) {e})) {e})))",
    "(module (func {n} block {B} loop {B} br {b} end {e} br_table {b} {b} end {e}))",
    "(module (func {n} i32.const 0 if {C} {o} block {B} br {b} end {e} else br {b} end {e}))",
    // 21: references with block operands
    "(module (func {F} (param {P} i32) (call {f} (block {B} (result i32) (local.get {l}) {e})) (local.set {l} (block {B} (result i32) (br {b}) {e}))))",
    // 22: label references at function level and inside nested functions' scopes
    "(module (func {n} (block {B} (br {b}) {e}) (br {b})) (func {n} (br {b})))",
    // 23: a label next to a param, a local and a function
    "(module (func {F} (param {P} i32) (local {P} i32) (block {B} (br {b}) (drop (local.get {l})) (call {f}) {e})))",
    // 24: memory/table/global/func/type with one letter each
    "(module (type {T} (func)) (func {F} (type {t})) (table {W} 1 funcref) (memory {M} 1) (global {G} i32 (i32.const 0)) (func {n} (call {f}) (drop (global.get {g}))))",
    // 25: the same kind in two modules
    "(module (global {G} i32 (i32.const 0)) (func {n} (drop (global.get {g})))){;}(module (global {G} i32 (i32.const 0)) (func {n} (global.set {g} (i32.const 0))))",
    "(module (type {T} (func)) (func {n} (type {t}))){;}(module (type {T} (func)) (func {n} (type {t})))",
    "(module (memory {M} 1) (export \"m\" (memory {m}))){;}(module (memory {M} 1) (data (memory {m}) (i32.const 0) \"x\"))",
    "(module (table {W} 1 funcref) (func {n} (drop (table.get {w} (i32.const 0))))){;}(module (table {W} 1 funcref) (export \"t\" (table {w})))",
    // 29: params and locals of every shape
    "(module (func {n} (param) (param {P} i32) (local) (local {Q} i32 {Q} i64) (local) (local {P} i32) (local.set {l} (local.get {l}))))",
    // 30: nested labels of the same kind
    "(module (func {n} (block {B} (block {B} (block {B} (br {b}) {e}) (br {b}) {e}) {e})))",
    // 31: the other instructions that take a table
    "(module (table {W} 1 funcref) (table {W} 1 funcref) (func {n} (table.set {w} (i32.const 0) (ref.null func)) (drop (table.grow {w} (ref.null func) (i32.const 0)))))",
    "(module (table {W} 1 funcref) (table {W} 1 funcref) (func {n} (table.fill {w} (i32.const 0) (ref.null func) (i32.const 0)) (table.init {w} 0 (i32.const 0) (i32.const 0) (i32.const 0)) (table.init $z (i32.const 0) (i32.const 0) (i32.const 0))))",
    "(module (type {T} (func)) (table {W} 1 funcref) (table {W} 1 funcref) (func {n} (call_indirect {w} (type {t}) (i32.const 0))))",
    // 34: references deep inside blocks
    "(module (func {F}) (func {n} (block (loop (if (call {f}) (then (call {f})) (else (return_call {f})))))))",
    "(module (func {n} (param {P} i32) (block (if (local.get {l}) (then (local.set {l} (i32.const 0)))))) (func {n} (drop (local.get {l}))))",
    // 36: inline imports and exports
    "(module (func {F} (import \"a\" \"b\")) (func {F} (export \"c\")) (start {f}))",
    "(module (memory {M} (import \"a\" \"b\") 1) (global {G} (import \"a\" \"b\") i32) (table {W} (import \"a\" \"b\") 1 funcref) (func {n} (drop (global.get {g})) (drop (table.get {w} (i32.const 0)))) (export \"m\" (memory {m})))",
    // 38: element segments, exported globals
    "(module (func {F}) (func {F}) (elem func {f} {f}) (table {W} 1 funcref) (elem (table {w}) (i32.const 0) func {f}))",
    "(module (global {G} i32 (i32.const 0)) (global {G} i32 (i32.const 0)) (export \"g\" (global {g})) (table {W} funcref (elem {f} {f})) (func {F}))",
    // 40: br_table, labels of loops
    "(module (func {n} (block {B} (loop {B} (br_table {b} {b} (i32.const 0)) {e}) {e})))",
    // 41: calls in sequence
    "(module (func {F} call {f} return_call {f}) (func {F} i32.const 0 if call {f} else (call {f}) ref.func {f} end))",
    // 42: calls as operands, references outside of functions
    "(module (func {F} (call {f} (call {f}))) (func {F} (drop (i32.add (call {f}) (ref.func {f})))))",
    "(module (func {F}) (global {G} funcref (ref.func {f})) (func {F} (call {f})) (elem funcref (ref.func {f}) (item ref.func {f})))",
];

/// Known finding KF-INDEX: the fields of a module are numbered by one counter for all kinds (pinned by the repository's
/// snapshots). The oracle follows the numbering this probe shows, so that everything else about numeric references is
/// still decided; a numbering that is neither the standard's nor this one fails on both.
pub fn shared_index_space() -> bool {
    let mut s = service();
    s.commit(uri(), "(module (type (func)) (func $f) (start 1))".into());
    !locs(s.goto_definition(goto_params(Position::new(0, 39)))).is_empty()
}
pub fn doc_of() -> D {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(TEMPLATES.len()));
    doc_from(TEMPLATES[lo + pick(hi - lo)])
}
pub fn doc_from(t: &str) -> D {
    let c = Cfg { letters: param(2, 2) as u8, nums: param(3, 0) as usize, unnamed: param(4, 0) == 1 };
    let mut d = build(t, &c);
    let unnamed = d.defs.iter().any(|x| x.name.is_none() && !matches!(x.k, N::Local | N::Label));
    d.shared = (c.nums > 0 || param(7, 0) == 1 && unnamed) && shared_index_space();
    if d.shared { reach("KF-shared-index") }
    note(&d.src);
    d
}
/// no name is defined twice in one scope (labels: not among all labels of the function)
pub fn assume_unique(d: &D) {
    for i in 0..d.defs.len() { for j in 0..i {
        let (x, y) = (&d.defs[i], &d.defs[j]);
        let same_scope = match (x.k, y.k) { (N::Label, N::Label) | (N::Local, N::Local) => x.scope == y.scope, (a, b) => a == b && x.scope == y.scope };
        if let (true, Some(a), Some(b)) = (same_scope, x.name, y.name) { assume(text(d, a) != text(d, b)) }
    } }
}
pub fn at(d: &D, s: (usize, usize)) -> Position { // any position on the token (documents have one line)
    let _ = d;
    Position::new(0, u32_in(s.0 as u32, s.1 as u32))
}
pub fn rng(s: (usize, usize)) -> Range { Range::new(Position::new(0, s.0 as u32), Position::new(0, s.1 as u32)) }
pub fn locs(r: Option<GotoDefinitionResponse>) -> Vec<Location> {
    match r { None => vec![], Some(GotoDefinitionResponse::Scalar(l)) => vec![l], Some(GotoDefinitionResponse::Array(v)) => v, _ => { check(false, "links"); vec![] } }
}
pub fn same_set(got: &[Range], want: &[Range]) -> bool {
    got.len() == want.len() && want.iter().all(|w| got.contains(w)) && got.iter().all(|g| want.contains(g))
}

// ------------------------------------------------------------------------------- P06
pub fn goto_def() {
    let d = doc_of();
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let k = pick(d.refs.len());
    let r = &d.refs[k];
    let want = resolve(&d, r);
    let pos = at(&d, r.span);
    let got = locs(s.goto_definition(goto_params(pos)));
    for l in &got {
        check(l.uri == uri(), "definition in another document");
        check(want.iter().any(|&w| l.range == rng(d.defs[w].sel)), "go to definition leads to something the reference does not denote");
    }
    if r.k == N::Local || r.k == N::Label { check(got.len() <= 1, "one definition"); check(want.is_empty() == got.is_empty(), "go to definition does not find the definition"); }
    else { check(got.len() == want.len(), "go to definition does not find every definition"); }
    reach(if want.is_empty() { "unresolved" } else { "resolved" });
}
/// away from references there is no definition; positions anywhere
pub fn goto_elsewhere() {
    let d = doc_of();
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let c = u32_in(0, d.src.len() as u32);
    let got = locs(s.goto_definition(goto_params(Position::new(0, c))));
    let mut on = None;
    for (i, r) in d.refs.iter().enumerate() { if c as usize >= r.span.0 && c as usize <= r.span.1 { on = Some(i) } }
    match on {
        None => { check(got.is_empty(), "go to definition answers where there is no reference"); reach("elsewhere") }
        Some(i) => { let want = resolve(&d, &d.refs[i]); for l in &got { check(want.iter().any(|&w| l.range == rng(d.defs[w].sel)), "go to definition leads to something the reference does not denote") } }
    }
}

const TYPED: &str = "(module (type {T} (func)) (import \"a\" \"b\" (func {F} (type {t}))) (type {T} (func (param i32))) (func {F} (type {t})) (func {F}) (func (call {f})))";
/// declaration of a call = its definition; type definition = the type the called function is declared with
pub fn goto_type() {
    let c = Cfg { letters: param(2, 2) as u8, nums: param(3, 0) as usize, unnamed: param(4, 0) == 1 };
    let mut d = build(TYPED, &c);
    d.shared = c.nums > 0 && shared_index_space();
    if d.shared { reach("KF-shared-index") }
    note(&d.src);
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let r = &d.refs[2];
    let pos = at(&d, r.span);
    let f = resolve(&d, r);
    let decl = locs(s.goto_declaration(goto_params(pos)));
    let want: Vec<Range> = f.iter().map(|&x| rng(d.defs[x].sel)).collect();
    check(same_set(&decl.iter().map(|l| l.range).collect::<Vec<_>>(), &want), "declaration of a call");
    // functions: defs 1 (imported, type ref 0), 3 (type ref 1), 4 (none), 5
    let mut want = vec![];
    for x in f { let t = match x { 1 => 0, 3 => 1, _ => continue }; for y in resolve(&d, &d.refs[t]) { want.push(rng(d.defs[y].sel)) } }
    let got: Vec<Range> = locs(s.goto_type_definition(goto_params(pos))).iter().map(|l| l.range).collect();
    check(got.iter().all(|g| want.contains(g)) && want.iter().all(|w| got.contains(w)), "type definition of a call");
    reach(if want.is_empty() { "no type" } else { "type" });
}

// ------------------------------------------------------------------------------- P07
fn uses(d: &D, j: usize, decl: bool, named_only: bool) -> Vec<Range> {
    let mut v = vec![];
    if decl { v.push(rng(d.defs[j].sel)) }
    for r in &d.refs { if named_only && r.num.is_some() { continue } if resolve(d, r) == [j] { v.push(rng(r.span)) } }
    v
}
pub fn refs() {
    let d = doc_of();
    assume_unique(&d);
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let decl = flag();
    let n = d.defs.len();
    let k = pick(n + d.refs.len());
    let (span, j) = if k < n { (if d.defs[k].k == N::Local { d.defs[k].sel } else if d.defs[k].name.is_some() && flag() { d.defs[k].kw } else { d.defs[k].sel }, Some(k)) }
        else { let r = &d.refs[k - n]; (r.span, resolve(&d, r).first().copied()) };
    let p = ReferenceParams { text_document_position: tdpp(at(&d, span)), work_done_progress_params: Default::default(), partial_result_params: Default::default(), context: ReferenceContext { include_declaration: decl } };
    let got: Vec<Range> = s.find_references(p).unwrap_or_default().into_iter().map(|l| { check(l.uri == uri(), "other document"); l.range }).collect();
    match j {
        Some(j) => { check(same_set(&got, &uses(&d, j, decl, false)), "references differ from the uses of the definition"); reach("found") }
        None => { check(got.is_empty(), "an unresolved reference has references"); reach("none") }
    }
}

// ------------------------------------------------------------------------------- P08
pub fn rename() {
    let d = doc_of();
    assume_unique(&d);
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let n = d.defs.len();
    let k = pick(n + d.refs.len());
    let (span, j) = if k < n { assume(d.defs[k].name.is_some()); (d.defs[k].sel, Some(k)) } else { let r = &d.refs[k - n]; assume(r.num.is_none()); (r.span, resolve(&d, r).first().copied()) };
    let pos = at(&d, span);
    let prep = s.prepare_rename(tdpp(pos));
    check(prep == Some(PrepareRenameResponse::Range(rng(span))), "prepare rename gives the identifier");
    let r = s.rename(RenameParams { text_document_position: tdpp(pos), new_name: "$new".into(), work_done_progress_params: Default::default() });
    let Some(j) = j else { reach("unresolved"); return };
    let Ok(Some(e)) = r else { check(false, "rename refused"); return };
    let Some(ch) = e.changes else { check(false, "no changes"); return };
    check(ch.len() == 1, "one document");
    let Some(edits) = ch.get(&uri()) else { check(false, "this document"); return };
    let got: Vec<Range> = edits.iter().map(|t| { check(t.new_text == "$new", "new name"); t.range }).collect();
    if !same_set(&got, &uses(&d, j, true, true)) {
        // known finding: in a module, equal names of all kinds of fields are renamed together
        let x = &d.defs[j];
        let field = |k: N| !matches!(k, N::Local | N::Label);
        let mut all = vec![];
        if field(x.k) {
            let t = text(&d, x.sel);
            for y in &d.defs { if let Some(n) = y.name { if field(y.k) && y.scope == x.scope && text(&d, n) == t { all.push(rng(n)) } } }
            for r in &d.refs { if field(r.k) && r.scope == x.scope && r.num.is_none() && text(&d, r.span) == t { all.push(rng(r.span)) } }
        }
        check(same_set(&got, &all), "rename changes something else, or misses a use");
        reach("KF-rename-kinds");
    }
    reach("renamed");
}
/// labels repeated after `end` and `else` are uses of the label: they are renamed with it, from wherever the rename starts
const CLOSING: &[&str] = &[
    "(module (func {n} block {B} br {b} end {e}{/}))",
    "(module (func {n} loop {B} block {B} br {b} br {b} end {e}{/} end {e}{/}))",
    "(module (func {n} i32.const 0 if {C} {o} br {b} else {-} nop br {b} end {e}{/}))",
    "(module (func {n} block {B} i32.const 0 if {C} {o} else {-} end {e}{/} end {e}{/} (block {B} (br {b}){e})))",
];
pub fn rename_closing() {
    let d = doc_from(CLOSING[pick(CLOSING.len())]);
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let (n, m) = (d.defs.len(), d.refs.len());
    let k = pick(n + m + d.again.len());
    let (span, j) = if k < n { assume(d.defs[k].k == N::Label && d.defs[k].name.is_some()); (d.defs[k].sel, Some(k)) }
        else if k < n + m { let r = &d.refs[k - n]; assume(r.num.is_none()); (r.span, resolve(&d, r).first().copied()) }
        else { let (j, p) = d.again[k - n - m]; (p, Some(j)) };
    let Some(j) = j else { return };
    let r = s.rename(RenameParams { text_document_position: tdpp(at(&d, span)), new_name: "$new".into(), work_done_progress_params: Default::default() });
    let Ok(Some(e)) = r else { check(false, "rename refused"); return };
    let Some(ch) = e.changes else { check(false, "no changes"); return };
    check(ch.len() == 1, "one document");
    let Some(edits) = ch.get(&uri()) else { check(false, "this document"); return };
    let got: Vec<Range> = edits.iter().map(|t| { check(t.new_text == "$new", "new name"); t.range }).collect();
    let mut want = vec![rng(d.defs[j].sel)];
    for r in &d.refs { if r.num.is_none() && resolve(&d, r).contains(&j) { want.push(rng(r.span)) } }
    for (x, p) in &d.again { if *x == j { want.push(rng(*p)) } }
    check(same_set(&got, &want), "a label is not renamed exactly where it is used");
    if d.again.iter().any(|(x, _)| *x == j) { reach("closed by name") }
    reach("renamed");
}
/// names: accepted iff they are identifiers
pub fn rename_name() {
    let mut s = service();
    s.commit(uri(), "(module (func $a (call $a)))".into());
    let n = param(0, 1) as usize;
    let mut b = vec![];
    if flag() { b.push(b'$') }
    for _ in 0..n { b.push(byte(1, 126)) }
    let ok = b.len() > 1 && b[0] == b'$' && b[1..].iter().all(|c| is_idc(*c));
    let name = unsafe { String::from_utf8_unchecked(b) };
    note(&name);
    let r = s.rename(RenameParams { text_document_position: tdpp(Position::new(0, 15)), new_name: name, work_done_progress_params: Default::default() });
    check(r.is_ok() == ok, "a new name is accepted exactly when it is an identifier");
    reach(if ok { "valid" } else { "invalid" });
}

// ------------------------------------------------------------------------------- P09
pub fn undef_dup() {
    let d = doc_of();
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let ds = diags(&s);
    let un: Vec<Range> = ds.iter().filter(|x| x.message.starts_with("cannot find")).map(|x| x.range).collect();
    let du: Vec<Range> = ds.iter().filter(|x| x.message.starts_with("duplicated name")).map(|x| x.range).collect();
    let mut want = vec![];
    for r in &d.refs {
        if is_func_label(r) { // a branch to the function body: defined
            if un.contains(&rng(r.span)) { reach("KF-body-label"); check(!r.labels.is_empty(), "a branch to the function body, outside of every block, is reported as undefined"); }
            continue
        }
        if r.k == N::Label && r.labels.is_empty() { // outside of every block: not defined
            if !un.contains(&rng(r.span)) { reach("KF-top-label"); continue }
        }
        if resolve(&d, r).is_empty() { want.push(rng(r.span)) }
    }
    check(want.iter().all(|w| un.contains(w)), "an undefined reference is not reported");
    for u in &un { check(want.contains(u) || d.refs.iter().any(|r| is_func_label(r) && rng(r.span) == *u), "a defined reference is reported as undefined") }
    for q in ds.iter().filter(|x| x.message.starts_with("cannot find") || x.message.starts_with("duplicated name")) { // the message quotes the name
        let span = (q.range.start.character as usize, q.range.end.character as usize);
        let t = text(&d, span);
        if t.starts_with('$') {
            let m = q.message.as_bytes();
            let k = m.iter().position(|c| *c == b'`').map_or(0, |k| k + 1);
            check(m.len() > k + t.len() && &m[k..k + t.len()] == t.as_bytes() && m[k + t.len()] == b'`', "the message of a diagnostic does not quote the name");
        }
    }
    for (i, x) in d.defs.iter().enumerate() {
        let Some(a) = x.name else { continue };
        let (mut same, mut any) = (false, false);
        for (j, y) in d.defs.iter().enumerate() {
            if i == j { continue }
            let Some(b) = y.name else { continue };
            if text(&d, a) != text(&d, b) || x.scope != y.scope { continue }
            let in_module = |k: N| !matches!(k, N::Local | N::Label);
            if x.k == y.k && x.k != N::Label { same = true }
            if x.k == y.k || in_module(x.k) && in_module(y.k) { any = true }
        }
        let reported = du.contains(&rng(x.sel));
        if same { check(reported, "a name defined twice in one scope is not reported"); reach("duplicate") }
        if reported && x.k != N::Label { // its related information: the other definitions of the name (of its kind; or of any kind, KF-dup-kinds)
            let rel: Vec<Range> = ds.iter().filter(|q| q.message.starts_with("duplicated name") && q.range == rng(x.sel)).flat_map(|q| q.related_information.iter().flatten()).map(|q| { check(q.location.uri == uri(), "another document"); q.location.range }).collect();
            let others = |fields: bool| -> Vec<Range> { d.defs.iter().enumerate().filter(|(j, y)| *j != i && y.scope == x.scope && (y.k == x.k || fields && !matches!(y.k, N::Local | N::Label) && x.k != N::Local) && y.name.is_some_and(|b| text(&d, b) == text(&d, a))).map(|(_, y)| rng(y.sel)).collect() };
            check(same_set(&rel, &others(false)) || same_set(&rel, &others(true)), "a duplicate does not tell the other definitions");
        }
        if any && !same && reported && x.k != N::Label { reach("KF-dup-kinds") }
        if !any { check(!reported, "a name defined once is reported as a duplicate"); reach("unique") }
    }
    check(du.iter().all(|r| d.defs.iter().any(|x| rng(x.sel) == *r)), "a duplicate is reported away from the definitions");
    reach("end");
}
