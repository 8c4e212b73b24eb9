//! P15 call hierarchy, P16 hover and inlay hints, P20 document symbols: on the documents of h_names.rs, whose builder knows
//! every definition, reference, function and type in them.
use crate::common::*;
use crate::h_names::*;
use crate::sym::*;
use lsp_types::*;

fn close(d: &D, open: usize) -> usize { d.parens.iter().find(|p| p.0 == open).map_or(0, |p| p.1) }
fn whole(d: &D, open: usize) -> Range { rng((open, close(d, open))) }
/// what an unnamed thing is called: its index
fn shown(d: &D, x: &Def) -> String {
    match x.name { Some(n) => text(d, n).into(), None => num(if d.shared { x.shared } else { x.num }) }
}
fn num(n: u32) -> String { let mut s = String::new(); if n >= 10 { s.push((b'0' + (n / 10) as u8) as char) } s.push((b'0' + (n % 10) as u8) as char); s }
fn is_import(d: &D, x: &Def) -> bool { d.parens.iter().any(|p| p.0 < x.open && p.1 > x.open && d.src[p.0..].starts_with("(import")) }
/// the function (definition) in whose body an offset is
fn enclosing(d: &D, func: usize) -> Option<usize> { (0..d.defs.len()).find(|&i| d.defs[i].k == N::Func && d.defs[i].func == func) }
fn is_call(d: &D, r: &Ref) -> bool { in_func(d, r) && r.k == N::Func && matches!(text(d, r.word), "call" | "return_call" | "ref.func") }
fn in_func(d: &D, r: &Ref) -> bool { enclosing(d, r.func).is_some_and(|f| r.span.1 <= close(d, d.defs[f].open)) }
/// the instruction of a call
fn instr(d: &D, r: &Ref) -> Range { if r.open + 1 == r.word.0 { whole(d, r.open) } else { rng((r.word.0, r.span.1)) } }

// ------------------------------------------------------------------------------- P15
fn item_is(d: &D, it: &CallHierarchyItem, f: usize) -> bool {
    let x = &d.defs[f];
    it.uri == uri() && it.kind == SymbolKind::FUNCTION && it.range == whole(d, x.open) && it.selection_range == rng(x.sel) && it.name == shown(d, x)
}
fn is_item_of(d: &D, it: &CallHierarchyItem, fs: &[usize]) -> bool { fs.iter().any(|&f| item_is(d, it, f)) }
fn prepare(s: &wat_service::LanguageService, p: Position) -> Vec<CallHierarchyItem> {
    s.prepare_call_hierarchy(CallHierarchyPrepareParams { text_document_position_params: tdpp(p), work_done_progress_params: Default::default() }).unwrap_or_default()
}
/// from a function or a call: the function; its incoming calls are the call sites that denote it, its outgoing calls those in its body
pub fn calls() {
    let d = doc_of();
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let fs: Vec<usize> = (0..d.defs.len()).filter(|&i| d.defs[i].k == N::Func).collect();
    let rs: Vec<usize> = (0..d.refs.len()).filter(|&i| d.refs[i].k == N::Func).collect();
    assume(!fs.is_empty());
    let k = pick(fs.len() + rs.len());
    let (p, want) = if k < fs.len() { let x = &d.defs[fs[k]]; (at(&d, if x.name.is_some() && flag() { x.kw } else { x.sel }), vec![fs[k]]) } else { let r = &d.refs[rs[k - fs.len()]]; (at(&d, r.span), resolve(&d, r)) };
    let got = prepare(&s, p);
    check(got.len() == want.len() && got.iter().all(|g| is_item_of(&d, g, &want)), "the function at a position");
    let Some(&f) = want.first() else { reach("unresolved"); return };
    let item = got.iter().find(|g| item_is(&d, g, f)).unwrap_or(&got[0]).clone();
    if flag() {
        let inc = s.call_hierarchy_incoming_calls(CallHierarchyIncomingCallsParams { item, work_done_progress_params: Default::default(), partial_result_params: Default::default() }).unwrap_or_default();
        let mut n = 0;
        for r in &d.refs {
            if !is_call(&d, r) || !resolve(&d, r).contains(&f) { continue }
            n += 1;
            let Some(g) = enclosing(&d, r.func) else { check(false, "model"); return };
            check(inc.iter().any(|c| item_is(&d, &c.from, g) && c.from_ranges.contains(&instr(&d, r))), "a call is missing from the incoming calls");
        }
        check(inc.iter().map(|c| c.from_ranges.len()).sum::<usize>() == n, "incoming calls that are none");
        reach("incoming");
    } else {
        let out = s.call_hierarchy_outgoing_calls(CallHierarchyOutgoingCallsParams { item, work_done_progress_params: Default::default(), partial_result_params: Default::default() }).unwrap_or_default();
        let mut n = 0;
        for r in &d.refs {
            if !is_call(&d, r) || r.func != d.defs[f].func { continue }
            for g in resolve(&d, r) {
                n += 1;
                check(out.iter().any(|c| item_is(&d, &c.to, g) && c.from_ranges.contains(&instr(&d, r))), "a call is missing from the outgoing calls");
            }
        }
        check(out.iter().map(|c| c.from_ranges.len()).sum::<usize>() == n, "outgoing calls that are none");
        reach("outgoing");
    }
}

// ------------------------------------------------------------------------------- P20
pub fn outline() {
    let d = doc_of();
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let r = s.document_symbol(DocumentSymbolParams { text_document: doc(), work_done_progress_params: Default::default(), partial_result_params: Default::default() });
    let Some(DocumentSymbolResponse::Nested(ms)) = r else { check(false, "no outline"); return };
    let mods: Vec<(usize, usize)> = { let mut v: Vec<_> = d.parens.iter().copied().filter(|p| d.src[p.0..].starts_with("(module")).collect(); v.sort(); v };
    check(ms.len() == mods.len(), "every module is listed");
    for (i, m) in ms.iter().enumerate() {
        check(m.range == rng(mods[i]) && m.kind == SymbolKind::MODULE, "modules are listed in order");
        let no = vec![];
        let cs = m.children.as_ref().unwrap_or(&no);
        let want: Vec<&Def> = d.defs.iter().filter(|x| x.module == i && !matches!(x.k, N::Local | N::Label)).collect();
        check(cs.len() == want.len(), "every field that defines something is listed, and nothing else");
        for (c, x) in cs.iter().zip(&want) {
            entry(&d, c, x);
            let ls: Vec<&Def> = d.defs.iter().filter(|y| x.k == N::Func && y.k == N::Local && y.func == x.func && d.src[y.open..].starts_with("(local")).collect();
            let inner = c.children.as_ref().unwrap_or(&no);
            check(inner.len() == ls.len(), "the locals of a function are listed below it");
            for (c, y) in inner.iter().zip(&ls) { entry(&d, c, y); reach("local") }
        }
    }
    reach("outline");
}
fn entry(d: &D, c: &DocumentSymbol, x: &Def) {
    check(c.name == shown(d, x), "name of a symbol");
    check((c.kind == SymbolKind::FUNCTION) == (x.k == N::Func), "kind of a symbol");
    match (x.k, x.name) {
        (N::Local, None) => check(c.range == rng(x.sel) && c.selection_range == c.range, "range of a symbol"),
        (_, n) => check(c.range == whole(d, x.open) && c.selection_range == n.map_or(c.range, rng), "range of a symbol"),
    }
}

// ------------------------------------------------------------------------------- P16
/// documents and what hovering over each definition (and over references to it) shows; @n: the name of definition n, if it has one
const HOVER: &[(&str, &[&str])] = &[
    ("(module (func {F} (param {P} i32) (param {Q} i64 {Q} f32) (result f64) (local {P} v128) (drop (local.get {l}))) (func {n} (call {f})))",
     &["(func@0 (param@1 i32) (param i64) (param f32) (result f64))", "(param@1 i32)", "(param i64)", "(param f32)", "(local@4 v128)", "(func)"]),
    ("(module (type {T} (func (param i32) (result i64 f32))) (type {T} (func)) (func {F} (type {t})) (import \"a\" \"b\" (func {F} (type {t}))) (func {n} (call {f}) (call {f})))",
     &["(type@0 (func (param i32) (result i64) (result f32)))", "(type@1 (func))", "", "", "(func)"]),
    ("(module (global {G} i32 (i32.const 0)) (global {G} (mut f64) (f64.const 0)) (import \"a\" \"b\" (global {G} (mut i64))) (func {n} (global.set {g} (i32.const 0)) (drop (global.get {g}))))",
     &["(global@0 i32)", "(global@1 (mut f64))", "(global@2 (mut i64))", "(func)"]),
    ("(module (func {F} (param {Q} i32 {Q} f32) (local {Q} i64 {Q} v128) (local.set {l} (local.get {l}))) (func {F} (param {P} f64) (local.set {l} (f64.const 0))) (func {F} (result i32) (call {f})))",
     &["(func@0 (param i32) (param f32))", "(param i32)", "(param f32)", "(local i64)", "(local v128)", "(func@5 (param@6 f64))", "(param@6 f64)", "(func@7 (result i32))"]),
];
fn fill(d: &D, t: &str) -> String {
    let (b, mut i, mut s) = (t.as_bytes(), 0, String::new());
    while i < b.len() {
        if b[i] == b'@' { if let Some(n) = d.defs[(b[i + 1] - b'0') as usize].name { s.push(' '); s.push_str(text(d, n)) } i += 2 } else { s.push(b[i] as char); i += 1 }
    }
    s
}
/// what the hover says, without the markdown around it (several definitions: an error of the harness' documents)
fn said(c: &HoverContents) -> String {
    match c {
        HoverContents::Scalar(MarkedString::LanguageString(l)) => l.value.clone(),
        HoverContents::Array(v) => match v.first() { Some(MarkedString::LanguageString(l)) if v.len() == 1 => l.value.clone(), _ => String::new() },
        HoverContents::Markup(m) => m.value.strip_prefix("```wat\n").and_then(|s| s.strip_suffix("\n```")).unwrap_or(&m.value).into(),
        _ => String::new(),
    }
}
fn hover_doc() -> (D, &'static [&'static str]) {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(HOVER.len()));
    let (t, e) = HOVER[lo + pick(hi - lo)];
    let c = Cfg { letters: param(2, 2) as u8, nums: param(3, 0) as usize, unnamed: param(4, 0) == 1 };
    let mut d = build(t, &c);
    d.shared = c.nums > 0 && shared_index_space();
    if d.shared { reach("KF-shared-index") }
    note(&d.src);
    (d, e)
}
/// what hovering over a definition shows
fn content(d: &D, e: &[&str], j: usize) -> String {
    if !e[j].is_empty() { return fill(d, e[j]) }
    // a function declared by type: the signature is that of the type
    let mut s = String::from("(func");
    if let Some(n) = d.defs[j].name { s.push(' '); s.push_str(text(d, n)) }
    let r = d.refs.iter().find(|r| r.k == N::Type && r.open > d.defs[j].open && r.open < close(d, d.defs[j].open));
    if let Some(&t) = r.map(|r| resolve(d, r)).unwrap_or_default().first() { if t == 0 { s.push_str(" (param i32) (result i64) (result f32)") } }
    s.push(')');
    s
}
pub fn hover() {
    let (d, e) = hover_doc();
    assume_unique(&d);
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let n = d.defs.len();
    let k = pick(n + d.refs.len());
    let (span, j) = if k < n { let x = &d.defs[k]; (if x.k != N::Local && x.name.is_some() && flag() { x.kw } else { x.sel }, Some(k)) } else { let r = &d.refs[k - n]; (r.span, resolve(&d, r).first().copied()) };
    if k < n && d.defs[k].k == N::Local && d.defs[k].name.is_none() { return } // on a type: explains the type
    let h = s.hover(HoverParams { text_document_position_params: tdpp(at(&d, span)), work_done_progress_params: Default::default() });
    match (h, j) {
        (Some(h), Some(j)) => {
            check(h.range == Some(rng(span)), "range of the hover");
            check(said(&h.contents) == content(&d, e, j), "hover does not show the definition");
            reach("shown")
        }
        (None, None) => reach("nothing"),
        (Some(h), None) => { check(said(&h.contents).is_empty(), "hover on what denotes nothing"); reach("nothing") }
        (None, Some(_)) => check(false, "hover shows nothing"),
    }
}
/// instructions explain their opcode, types themselves
pub fn hover_instr() {
    use crate::opcodes::OPCODES;
    warm();
    if param(0, 0) == 2 { // types
        let t = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"][pick(7)];
        let (a, b) = [("(module (func (param ", ")))"), ("(module (func (result i32 ", ")))"), ("(module (func (local $x ", ")))"), ("(module (global (mut ", ") (unreachable)))"), ("(module (type (func (param i64 ", "))))")][pick(5)];
        let src = format!("{a}{t}{b}");
        note(&src);
        let mut s = service();
        s.commit(uri(), src.clone());
        let h = s.hover(HoverParams { text_document_position_params: tdpp(Position::new(0, u32_in(a.len() as u32, (a.len() + t.len()) as u32 - 1))) , work_done_progress_params: Default::default() });
        let Some(h) = h else { check(false, "hover shows nothing"); return };
        check(h.range == Some(range_of(&src, a.len(), a.len() + t.len())), "range of the hover");
        let HoverContents::Markup(m) = h.contents else { check(false, "hover does not explain the type"); return };
        check(m.value.strip_prefix("```wat\n").and_then(|v| v.strip_prefix(t)).and_then(|v| v.strip_prefix("\n```\n")).is_some_and(|v| !v.trim().is_empty()), "hover does not explain the type");
        reach("type");
        return
    }
    let (step, base) = (param(1, 1) as usize, param(2, 0) as usize);
    let i = base + step * pick((OPCODES.len() - base).div_ceil(step));
    let mut name = OPCODES[i].0.as_bytes().to_vec();
    if param(0, 0) == 1 { // another letter anywhere in it
        let j = pick(name.len());
        let c = byte(b'!', b'~');
        assume(if j == 0 { c.is_ascii_lowercase() } else { !matches!(c, b'"' | b'\'' | b',' | b';' | b'(' | b')' | b'[' | b']' | b'{' | b'}') });
        name[j] = c;
    }
    let name = unsafe { String::from_utf8_unchecked(name) };
    let a = "(module (func (";
    let src = format!("{a}{name})))");
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let h = s.hover(HoverParams { text_document_position_params: tdpp(Position::new(0, u32_in(a.len() as u32, (a.len() + name.len()) as u32 - 1))), work_done_progress_params: Default::default() });
    match (h, OPCODES.iter().find(|o| o.0 == name)) {
        (Some(h), Some(o)) => {
            check(h.range == Some(range_of(&src, a.len(), a.len() + name.len())), "range of the hover");
            let HoverContents::Markup(m) = h.contents else { check(false, "hover does not show the instruction"); return };
            check(m.value.strip_prefix("```wat\n").and_then(|v| v.strip_prefix(o.0)).and_then(|v| v.strip_prefix("\n```\nBinary Opcode: ")).is_some_and(|v| v == o.1), "hover does not show the opcode of the instruction");
            reach("opcode")
        }
        (None, Some(_)) => check(false, "hover shows nothing"),
        (Some(_), None) => check(param(0, 0) != 1, "hover shows an opcode of what is not an instruction"),
        (None, None) => reach("no instruction"),
    }
}
/// documentation comments: lines before a function
pub fn hover_comment() {
    let mut b: Vec<u8> = b"(module ".to_vec();
    if flag() { b.extend_from_slice(b"(func $x) ") }
    b.push(b'\n');
    let n = param(0, 2) as usize;
    let mut docs: Vec<Option<String>> = vec![];
    for _ in 0..n {
        match pick(5) {
            0 => { // indentation and the like belong to the documentation, apart from one blank after the semicolons
                b.extend_from_slice(b";;;");
                let mut s = String::new();
                for i in 0..2 { let c = byte(b'\t', b'~'); assume(c == b'\t' || c >= b' '); b.push(c); if i > 0 || c != b' ' && c != b'\t' { s.push(c as char) } }
                let c = byte(b'!', b'~'); b.push(c); s.push(c as char);
                docs.push(Some(s));
            }
            1 => { b.extend_from_slice(b";;;"); let c = byte(b'a', b'z'); b.push(c); let mut s = String::new(); s.push(c as char); docs.push(Some(s)); }
            2 => { b.extend_from_slice(b";; "); b.push(byte(b'a', b'z')); docs.push(None) }
            3 => {}
            _ => { b.extend_from_slice(b";;;"); docs.push(Some(String::new())) }
        }
        b.push(b'\n');
    }
    b.extend_from_slice(b"(func $f (result i32)))");
    let src = unsafe { String::from_utf8_unchecked(b) };
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let h = s.hover(HoverParams { text_document_position_params: tdpp(pos_of(&src, src.len() - 15)), work_done_progress_params: Default::default() });
    let Some(Hover { contents: HoverContents::Markup(m), .. }) = h else { check(false, "no hover"); return };
    let mut want = String::from("```wat\n(func $f (result i32))\n```");
    // the last run of documentation comments
    let end = docs.iter().rposition(|x| x.is_some()).map_or(0, |x| x + 1);
    let start = docs[..end].iter().rposition(|x| x.is_none()).map_or(0, |x| x + 1);
    let mut lines: Vec<&str> = docs[start..end].iter().flatten().map(|x| x.as_str()).collect();
    while lines.len() > 1 && lines.last() == Some(&"") { lines.pop(); }
    if lines.iter().any(|l| !l.is_empty()) {
        if lines.iter().any(|l| l.is_empty()) { reach("blank doc line"); }
        want.push_str("\n---\n"); want.push_str(&lines.join("\n")); reach("doc")
    } else if !lines.is_empty() { reach("empty doc"); return } else { reach("no doc") }
    check(m.value == want, "documentation of a function");
}
/// Inlay hints: the type after every local and global reference that denotes something, the name after every named function
pub fn inlay() {
    let d = doc_of();
    assume_unique(&d);
    let mut s = service();
    s.commit(uri(), d.src.clone());
    let n = d.src.len() as u32;
    let (a, z) = match param(8, 0) { 0 => (0, n), _ => if flag() { (u32_in(0, n), n) } else { (0, u32_in(0, n)) } };
    let hs = s.inlay_hint(InlayHintParams { text_document: doc(), range: Range::new(Position::new(0, a), Position::new(0, z)), work_done_progress_params: Default::default() }).unwrap_or_default();
    let label = |h: &InlayHint| match &h.label { InlayHintLabel::String(s) => s.clone(), _ => String::new() };
    let mut used = 0;
    let mut expect = |lo: usize, hi: usize, want: String| {
        let here: Vec<&InlayHint> = hs.iter().filter(|h| h.position == Position::new(0, hi as u32)).collect();
        let inside = lo as u32 >= a && hi as u32 <= z;
        if inside { check(here.len() == 1 && label(here[0]) == want, "a hint is missing or wrong"); reach("hint") }
        if hi as u32 <= a || lo as u32 >= z { check(here.is_empty(), "a hint outside of the range") }
        used += here.len();
    };
    for r in &d.refs {
        if r.k != N::Local && r.k != N::Global { continue }
        if let Some(&j) = resolve(&d, r).first() { expect(r.span.0, r.span.1, text(&d, d.defs[j].ty).into()) }
    }
    for x in &d.defs {
        if x.k != N::Func { continue }
        if let Some(nm) = x.name { let e = close(&d, x.open); let mut w = String::from("(func "); w.push_str(text(&d, nm)); w.push(')'); expect(e - 1, e, w) }
    }
    check(used == hs.len(), "hints where there is nothing to say");
    reach("hints");
}
#[allow(dead_code)] fn _unused(d: &D, x: &Def) -> bool { is_import(d, x) }
