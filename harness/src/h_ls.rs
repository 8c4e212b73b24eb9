//! P11 (no document, position or range makes a request crash; answers stay inside the document), P12 (UTF-16 columns),
//! P14 (answers depend on the current text only)
use crate::common::*;
use crate::corpus::*;
use crate::h_parse::{trivia, window};
use crate::sym::*;
use lsp_types::*;
use wat_service::LanguageService;

/// an inlay hint
#[derive(PartialEq)]
pub struct H { pub position: Position, pub label: String, pub kind: Option<InlayHintKind>, pub edits: Option<Vec<TextEdit>>, pub pad: (Option<bool>, Option<bool>) }
#[derive(PartialEq)]
pub enum A {
    Hover(Option<Hover>), Comp(Option<CompletionResponse>), Goto(Option<GotoDefinitionResponse>), Refs(Option<Vec<Location>>), Prep(Option<PrepareRenameResponse>),
    Ren(Result<Option<WorkspaceEdit>, String>), Items(Option<Vec<CallHierarchyItem>>), In(Vec<Option<Vec<CallHierarchyIncomingCall>>>), Out(Vec<Option<Vec<CallHierarchyOutgoingCall>>>),
    Act(Option<Vec<CodeActionOrCommand>>), Hint(Option<Vec<H>>), Sem(Option<SemanticTokensResult>), SemR(Option<SemanticTokensRangeResult>), Fold(Option<Vec<FoldingRange>>),
    Sel(Option<Vec<SelectionRange>>), Syms(Option<DocumentSymbolResponse>), Edits(Option<Vec<TextEdit>>), Diag(Vec<Diagnostic>),
}
pub const POS_HANDLERS: usize = 11; // requests that take a position
pub const RANGE_HANDLERS: usize = 4; // requests that take a range
pub const DOC_HANDLERS: usize = 5; // requests about the whole document
pub fn tdpp_of(u: &Uri, p: Position) -> TextDocumentPositionParams { TextDocumentPositionParams { text_document: TextDocumentIdentifier { uri: u.clone() }, position: p } }
fn w() -> WorkDoneProgressParams { Default::default() }
fn pr() -> PartialResultParams { Default::default() }
fn fopts() -> FormattingOptions { FormattingOptions { tab_size: 2, insert_spaces: true, ..Default::default() } }
pub fn gp(u: &Uri, p: Position) -> GotoDefinitionParams { GotoDefinitionParams { text_document_position_params: tdpp_of(u, p), work_done_progress_params: w(), partial_result_params: pr() } }
fn items(s: &LanguageService, u: &Uri, p: Position) -> Option<Vec<CallHierarchyItem>> { s.prepare_call_hierarchy(CallHierarchyPrepareParams { text_document_position_params: tdpp_of(u, p), work_done_progress_params: w() }) }
pub fn ask_pos(s: &LanguageService, u: &Uri, h: usize, p: Position) -> A {
    match h {
        0 => A::Hover(s.hover(HoverParams { text_document_position_params: tdpp_of(u, p), work_done_progress_params: w() })),
        1 => A::Comp(s.completion(CompletionParams { text_document_position: tdpp_of(u, p), work_done_progress_params: w(), partial_result_params: pr(), context: None })),
        2 => A::Goto(s.goto_definition(gp(u, p))),
        3 => A::Goto(s.goto_declaration(gp(u, p))),
        4 => A::Goto(s.goto_type_definition(gp(u, p))),
        5 => A::Refs(s.find_references(ReferenceParams { text_document_position: tdpp_of(u, p), work_done_progress_params: w(), partial_result_params: pr(), context: ReferenceContext { include_declaration: true } })),
        6 => A::Prep(s.prepare_rename(tdpp_of(u, p))),
        7 => A::Ren(s.rename(RenameParams { text_document_position: tdpp_of(u, p), new_name: "$new".into(), work_done_progress_params: w() })),
        8 => A::Sel(s.selection_range(SelectionRangeParams { text_document: TextDocumentIdentifier { uri: u.clone() }, positions: vec![p], work_done_progress_params: w(), partial_result_params: pr() })),
        9 => { let i = items(s, u, p); A::In(i.into_iter().flatten().map(|i| s.call_hierarchy_incoming_calls(CallHierarchyIncomingCallsParams { item: i, work_done_progress_params: w(), partial_result_params: pr() })).collect()) }
        _ => { let i = items(s, u, p); A::Out(i.into_iter().flatten().map(|i| s.call_hierarchy_outgoing_calls(CallHierarchyOutgoingCallsParams { item: i, work_done_progress_params: w(), partial_result_params: pr() })).collect()) }
    }
}
pub fn ask_range(s: &LanguageService, u: &Uri, h: usize, r: Range) -> A {
    let d = TextDocumentIdentifier { uri: u.clone() };
    match h {
        0 => A::Act(s.code_action(CodeActionParams { text_document: d, range: r, context: CodeActionContext::default(), work_done_progress_params: w(), partial_result_params: pr() })),
        1 => A::Hint(s.inlay_hint(InlayHintParams { text_document: d, range: r, work_done_progress_params: w() }).map(|v| v.into_iter().map(|h| H { position: h.position, label: match h.label { InlayHintLabel::String(s) => s, InlayHintLabel::LabelParts(v) => v.into_iter().map(|p| p.value).collect() }, kind: h.kind, edits: h.text_edits, pad: (h.padding_left, h.padding_right) }).collect())),
        2 => A::SemR(s.semantic_tokens_range(SemanticTokensRangeParams { text_document: d, range: r, work_done_progress_params: w(), partial_result_params: pr() })),
        _ => A::Edits(s.range_formatting(DocumentRangeFormattingParams { text_document: d, range: r, options: fopts(), work_done_progress_params: w() })),
    }
}
pub fn ask_doc(s: &LanguageService, u: &Uri, h: usize) -> A {
    let d = TextDocumentIdentifier { uri: u.clone() };
    match h {
        0 => A::Syms(s.document_symbol(DocumentSymbolParams { text_document: d, work_done_progress_params: w(), partial_result_params: pr() })),
        1 => A::Fold(s.folding_range(FoldingRangeParams { text_document: d, work_done_progress_params: w(), partial_result_params: pr() })),
        2 => A::Sem(s.semantic_tokens_full(SemanticTokensParams { text_document: d, work_done_progress_params: w(), partial_result_params: pr() })),
        3 => A::Edits(s.formatting(DocumentFormattingParams { text_document: d, options: fopts(), work_done_progress_params: w() })),
        _ => A::Diag(s.publish_diagnostics(u.clone()).diagnostics),
    }
}
/// equal answers (diagnostics and outline roots: in any order)
pub fn same(a: &A, b: &A) -> bool {
    match (a, b) {
        (A::Diag(x), A::Diag(y)) => x.len() == y.len() && x.iter().all(|d| x.iter().filter(|e| *e == d).count() == y.iter().filter(|e| *e == d).count()),
        (A::Syms(Some(DocumentSymbolResponse::Nested(x))), A::Syms(Some(DocumentSymbolResponse::Nested(y)))) => x.len() == y.len() && x.iter().all(|d| y.contains(d)),
        _ => a == b,
    }
}

// ------------------------------------------------------------------------------- structure of answers
struct Doc<'a> { src: &'a str, lines: Vec<u32> } // length of each line
fn doc_of(src: &str) -> Doc { // ASCII
    let mut lines = vec![0u32];
    for c in src.bytes() { if c == b'\n' { lines.push(0) } else { let n = lines.len() - 1; lines[n] += 1 } }
    Doc { src, lines }
}
impl Doc<'_> {
    fn pos(&self, p: Position) -> bool { (p.line as usize) < self.lines.len() && p.character <= self.lines[p.line as usize] }
    fn range(&self, r: Range) { check(self.pos(r.start) && self.pos(r.end), "an answer points outside of the document"); check(r.start <= r.end, "a range ends before it starts") }
    fn end(&self) -> Position { Position::new(self.lines.len() as u32 - 1, *self.lines.last().unwrap()) }
}
fn within(a: Range, b: Range) -> bool { b.start <= a.start && a.end <= b.end }
fn item(d: &Doc, i: &CallHierarchyItem) { d.range(i.range); d.range(i.selection_range); check(within(i.selection_range, i.range), "selection outside of the item") }
fn sym(d: &Doc, s: &DocumentSymbol, parent: Option<Range>) {
    d.range(s.range);
    check(within(s.selection_range, s.range), "selection outside of the symbol");
    if let Some(p) = parent { check(within(s.range, p), "symbol outside of its parent") }
    for c in s.children.iter().flatten() { sym(d, c, Some(s.range)) }
}
fn structure(d: &Doc, a: &A, at: Position, asked: Position) {
    match a {
        A::Hover(x) => { if let Some(r) = x.as_ref().and_then(|h| h.range) { d.range(r); check(r.start <= at && at <= r.end, "hover range away from the position") } }
        A::Comp(_) => {}
        A::Goto(None) => {}
        A::Goto(Some(GotoDefinitionResponse::Scalar(l))) => d.range(l.range),
        A::Goto(Some(GotoDefinitionResponse::Array(v))) => for l in v { d.range(l.range) },
        A::Goto(_) => {}
        A::Refs(v) => for l in v.iter().flatten() { d.range(l.range) },
        A::Prep(Some(PrepareRenameResponse::Range(r))) => { d.range(*r); check(r.start <= at && at <= r.end, "prepare rename away from the position") }
        A::Prep(_) => {}
        A::Ren(Ok(Some(e))) => for (_, v) in e.changes.iter().flatten() { for i in 0..v.len() { d.range(v[i].range); for j in 0..i { check(v[j].range.end <= v[i].range.start || v[i].range.end <= v[j].range.start, "overlapping edits") } } },
        A::Ren(_) => {}
        A::Items(v) => for i in v.iter().flatten() { item(d, i) },
        A::In(v) => for c in v.iter().flatten().flatten() { item(d, &c.from); for r in &c.from_ranges { d.range(*r); check(within(*r, c.from.range), "call outside of its caller") } },
        A::Out(v) => for c in v.iter().flatten().flatten() { item(d, &c.to); for r in &c.from_ranges { d.range(*r) } },
        A::Act(v) => for x in v.iter().flatten() { if let CodeActionOrCommand::CodeAction(x) = x { for (_, v) in x.edit.iter().flat_map(|e| e.changes.iter()).flatten() { for e in v { d.range(e.range) } } } },
        A::Hint(v) => for h in v.iter().flatten() { check(d.pos(h.position), "inlay hint outside of the document") },
        A::Sem(_) | A::SemR(_) => {}
        A::Fold(v) => for f in v.iter().flatten() { check(f.start_line < f.end_line, "folding range of one line"); d.range(Range::new(Position::new(f.start_line, f.start_character.unwrap_or(0)), Position::new(f.end_line, f.end_character.unwrap_or(0)))) },
        A::Sel(v) => for s in v.iter().flatten() {
            if s.range == Range::new(asked, asked) && s.parent.is_none() { continue } // nothing to select there (LSP: the empty range)
            d.range(s.range);
            check(s.range.start <= at && at <= s.range.end, "selection range away from the position");
            let mut x = s;
            while let Some(p) = &x.parent { check(within(x.range, p.range), "selection range outside of its parent"); d.range(p.range); x = p }
            check(x.range.start == Position::new(0, 0) && x.range.end == d.end(), "the outermost selection range is not the whole document");
        },
        A::Syms(Some(DocumentSymbolResponse::Nested(v))) => for s in v { sym(d, s, None) },
        A::Syms(_) => {}
        A::Edits(v) => for e in v.iter().flatten() { d.range(e.range) },
        A::Diag(v) => for x in v { d.range(x.range); for r in x.related_information.iter().flatten() { d.range(r.location.range) } },
    }
}
/// any position: on a line of the document, up to `over` columns beyond its end; or a line that is not there
fn any_pos(d: &Doc, over: u32) -> Position {
    let l = pick(d.lines.len() + (over > 0) as usize);
    if l == d.lines.len() { return Position::new(l as u32, u32_in(0, 1)) }
    Position::new(l as u32, u32_in(0, d.lines[l] + over))
}
/// where the request goes, and the check of its answer. `near`: positions up to 2 before/after that column (one-line documents)
fn drive(s: &LanguageService, d: &Doc, near: Option<usize>, over: u32) {
    let u = uri();
    let k = pick(POS_HANDLERS + RANGE_HANDLERS + DOC_HANDLERS);
    let clamp = |p: Position| if (p.line as usize) < d.lines.len() { Position::new(p.line, p.character.min(d.lines[p.line as usize])) } else { p };
    let p = |_: usize| -> Position {
        match near {
            None => any_pos(d, over),
            Some(c) => { let (n, k) = (d.lines[0] as usize, param(5, 2) as usize); Position::new(0, u32_in(c.saturating_sub(k).min(n) as u32, (c + k).min(n) as u32)) }
        }
    };
    if k < POS_HANDLERS { let p = p(0); structure(d, &ask_pos(s, &u, k, p), clamp(p), p); reach("position") }
    else if k < POS_HANDLERS + RANGE_HANDLERS {
        let r = match near {
            Some(_) => { let a = p(0); let b = p(1); Range::new(a, b) }
            None if over > 0 => Range::new(any_pos(d, over), any_pos(d, over)),
            None => { let a = any_pos(d, 0); Range::new(a, if flag() { a } else { d.end() }) }
        };
        structure(d, &ask_range(s, &u, k - POS_HANDLERS, r), clamp(r.start), r.start);
        reach("range")
    } else { structure(d, &ask_doc(s, &u, k - POS_HANDLERS - RANGE_HANDLERS), Position::new(0, 0), Position::new(0, 0)); reach("document") }
}
fn span() -> (usize, usize) { (param(0, 0) as usize, (param(1, 999) as usize).min(FIELDS.len())) }
/// well-formed documents, positions anywhere (and beyond the text). params: lo, hi, over
pub fn ask_any() {
    let src = crate::h_edit::any_source();
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    drive(&s, &doc_of(&src), None, param(2, 0) as u32);
}
/// an arbitrary byte (without line breaks), or (param 4) one of those which matter to the lexer
fn typed_byte() -> u8 {
    if param(4, 0) == 0 { let c = byte(0, 127); assume(c != b'\n' && c != b'\r'); return c }
    let c = byte(32, 127);
    assume(c == b'(' || c == b')' || c == b';' || c == b' ' || c == b'"' || c == b'$' || c == b'.' || c == b'0' || c == b'f' || c == b'=' || c == b',');
    c
}
/// documents being edited: w arbitrary bytes anywhere in place of `del`; requests near the edit. params: lo, hi, w, del
pub fn ask_edited() {
    let (lo, hi) = span();
    let f = field(lo + pick(hi - lo));
    let (n, del) = (param(2, 1) as usize, param(3, 0) as usize);
    let at = pick(f.len() + 1 - del.min(f.len()));
    let mut b = f.as_bytes()[..at].to_vec();
    for _ in 0..n { b.push(typed_byte()) }
    b.extend_from_slice(&f.as_bytes()[(at + del).min(f.len())..]);
    let src = unsafe { String::from_utf8_unchecked(b) };
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    drive(&s, &doc_of(&src), Some(at + n), 0);
}
/// documents being typed: a prefix of a well-formed one and n arbitrary bytes; requests at the end
pub fn ask_typed() {
    let (lo, hi) = span();
    let f = field(lo + pick(hi - lo));
    let n = param(2, 1) as usize;
    let at = pick(f.len() + 1);
    let mut b = f.as_bytes()[..at].to_vec();
    for _ in 0..n { b.push(typed_byte()) }
    let src = unsafe { String::from_utf8_unchecked(b) };
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    drive(&s, &doc_of(&src), Some(at + n), 0);
}

// ------------------------------------------------------------------------------- P12: UTF-16
/// documents of one line with everything in it; {} marks where a comment can be
const WIDE: &[&str] = &[
    "(module {}(type $t (func (param i32))) {}(func $f (type $t) (param $x i32) {}(local.set $x (i32.const 0)) (call $f (local.get $x)) (call $q){}) (start $f))",
    "(module {}(func (param i32 i64) (result i32 i32) (block $l {}(br $l) (br $k)) {}(i32.add (f32.const 1)) ) (func $a) (func $a) ){})",
    "(module {}(import \"{}\" \"b\" (global $g (mut i32))) (func (drop (global.get $g)) (i32.load offset =1)) (memory $m 1 {}) (export \"{}\" (memory $m)))",
];
fn wide_char(wide: &mut Vec<u8>, plain: &mut Vec<u8>) {
    match pick(3) {
        0 => { wide.push(byte(0xC2, 0xDF)); wide.push(byte(0x80, 0xBF)); plain.push(b'x') }
        1 => { wide.push(byte(0xE1, 0xEC)); wide.push(byte(0x80, 0xBF)); wide.push(byte(0x80, 0xBF)); plain.push(b'x') }
        _ => { wide.push(byte(0xF1, 0xF3)); wide.push(byte(0x80, 0xBF)); wide.push(byte(0x80, 0xBF)); wide.push(byte(0x80, 0xBF)); plain.extend_from_slice(b"xx") }
    }
}
/// the text of edits contains the character: only what they replace is compared
fn same16(a: &A, b: &A) -> bool {
    match (a, b) {
        (A::Edits(Some(x)), A::Edits(Some(y))) => x.len() == y.len() && (0..x.len()).all(|i| x[i].range == y[i].range),
        _ => same(a, b),
    }
}
/// A character outside of ASCII in a comment or string counts as one UTF-16 code unit (two beyond the BMP): every answer
/// is the one for the document that has that many ASCII characters instead.
pub fn utf16() {
    let t = WIDE[pick(WIDE.len())];
    let parts: Vec<&str> = t.split("{}").collect();
    let at = pick(parts.len() - 1);
    let n = param(0, 1) as usize;
    let (mut a, mut b) = (vec![], vec![]);
    for (i, p) in parts.iter().enumerate() {
        a.extend_from_slice(p.as_bytes()); b.extend_from_slice(p.as_bytes());
        if i == parts.len() - 1 { break }
        let string = a.last() == Some(&b'"');
        if i == at {
            if !string { a.extend_from_slice(b"(;"); b.extend_from_slice(b"(;") }
            for _ in 0..n { wide_char(&mut a, &mut b) }
            if !string { a.extend_from_slice(b";)"); b.extend_from_slice(b";)") }
        } else if string { a.push(b'x'); b.push(b'x') }
    }
    let (a, b) = unsafe { (String::from_utf8_unchecked(a), String::from_utf8_unchecked(b)) };
    note(&a);
    let mut s = service();
    s.commit(uri(), a);
    let u = uri();
    let k = pick(POS_HANDLERS + RANGE_HANDLERS + DOC_HANDLERS);
    let n = b.len() as u32;
    let mut t = service();
    t.commit(uri(), b);
    let ok = if k < POS_HANDLERS { let p = Position::new(0, u32_in(0, n)); same(&ask_pos(&s, &u, k, p), &ask_pos(&t, &u, k, p)) }
        else if k < POS_HANDLERS + RANGE_HANDLERS {
            let p = Position::new(0, u32_in(0, n));
            let r = if flag() { Range::new(p, Position::new(0, n)) } else { Range::new(Position::new(0, 0), p) };
            same16(&ask_range(&s, &u, k - POS_HANDLERS, r), &ask_range(&t, &u, k - POS_HANDLERS, r))
        } else {
            same16(&ask_doc(&s, &u, k - POS_HANDLERS - RANGE_HANDLERS), &ask_doc(&t, &u, k - POS_HANDLERS - RANGE_HANDLERS))
        };
    check(ok, "columns are not counted in UTF-16 code units");
    reach("same");
}
// ------------------------------------------------------------------------------- P14: histories
/// texts a document goes through; @ and # are symbolic letters (one each per text)
const TEXTS: &[&str] = &[
    "(module (type $@ (func (param i32))) (type $a (func (param i64) (result i32))) (func $# (type $a)) (func $g (call $a (local.get 0))))",
    "(module (func $a (param $a i32) (local $@ f32) (drop (local.get $#))) (global $@ i64 (i64.const 0)) (func (call $a)))",
    "(module (func (block $@ (loop $a (br $#)))) (memory $# 1) (export \"m\" (memory $a)))",
    "(module (func $@) (func $a)) (module",
    "",
];
fn text_of(i: usize, symbolic: bool) -> String {
    let (x, y) = if symbolic { (byte(b'a', b'b'), byte(b'a', b'b')) } else { (b'a', b'b') };
    let mut v = Vec::with_capacity(160);
    for c in TEXTS[i].bytes() { v.push(if c == b'@' { x } else if c == b'#' { y } else { c }) }
    unsafe { String::from_utf8_unchecked(v) }
}
fn ask(s: &LanguageService, k: usize, p: Position) -> A {
    let u = uri();
    if k < POS_HANDLERS { ask_pos(s, &u, k, p) } else if k < POS_HANDLERS + RANGE_HANDLERS { ask_range(s, &u, k - POS_HANDLERS, Range::new(Position::new(0, 0), p)) } else { ask_doc(s, &u, k - POS_HANDLERS - RANGE_HANDLERS) }
}
/// commit the first text, (optionally) ask something, commit another document or not, commit the second text: the answer is the
/// one of a service that only ever saw the second text. params: lo, hi (texts), letters of the first text symbolic
pub fn history() {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 99) as usize).min(TEXTS.len()));
    let first = text_of(lo + pick(hi - lo), param(3, 0) == 1);
    let second = text_of(lo + pick(hi - lo), true);
    note(&first);
    note(&second);
    let mut s = service();
    s.commit(uri(), first);
    // what was asked before
    let warmups = [None, Some(0), Some(1), Some(2), Some(POS_HANDLERS + 1), Some(POS_HANDLERS + RANGE_HANDLERS), Some(POS_HANDLERS + RANGE_HANDLERS + 4)];
    match param(2, 0) {
        0 => { for k in warmups.iter().flatten() { ask(&s, *k, Position::new(0, 50)); } }
        _ => if let Some(k) = warmups[pick(warmups.len())] { ask(&s, k, Position::new(0, 50)); },
    }
    match pick(3) {
        0 => {}
        1 => s.commit(uri_b(), "(module (func $a (call $b)) (func $b))".into()),
        _ => { s.commit(uri_b(), second.clone()); ask_doc(&s, &uri_b(), 4); s.commit(uri_b(), "".into()) }
    }
    s.commit(uri(), second.clone());
    let mut t = service();
    t.commit(uri(), second.clone());
    let n = second.len() as u32;
    let k = pick(POS_HANDLERS + RANGE_HANDLERS + DOC_HANDLERS);
    let p = Position::new(0, if k >= POS_HANDLERS { n } else { u32_in(0, n) });
    check(same(&ask(&s, k, p), &ask(&t, k, p)), "an answer depends on the history of the document");
    reach("same");
}
const SWAPS: &[&str] = &[
    "(module (type $@ (func (param i32))) (type $# (func (param i64) (result i32))) (func $f (type $a)) (func (call $f (i32.const 0))))",
    "(module (func $@ (param i32)) (func $# (result i64)) (func $g (call $a) (call $b)) (start $a))",
    "(module (global $@ i32 (i32.const 0)) (global $# i64 (i64.const 0)) (func (param $@ f32) (local $# f64) (drop (local.get $a)) (drop (global.get $b))))",
    "(module (func (block $@ (loop $# (br $a) (br_if $b (i32.const 0))))) (memory $@ 1) (memory $# 2) (data (memory $a) (i32.const 0) \"\"))",
];
/// the same request at the same place before and after the names were changed
pub fn history_same() {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 99) as usize).min(SWAPS.len()));
    let i = lo + pick(hi - lo);
    let make = || { let (x, y) = (byte(b'a', b'b'), byte(b'a', b'b')); SWAPS[i].bytes().map(|c| if c == b'@' { x } else if c == b'#' { y } else { c }).collect::<Vec<u8>>() };
    let (first, second) = unsafe { (String::from_utf8_unchecked(make()), String::from_utf8_unchecked(make())) };
    note(&first);
    note(&second);
    let n = second.len() as u32;
    let k = pick(POS_HANDLERS + RANGE_HANDLERS + DOC_HANDLERS);
    let p = Position::new(0, if k >= POS_HANDLERS { n } else { u32_in(0, n) });
    let mut s = service();
    s.commit(uri(), first);
    ask(&s, k, p);
    s.commit(uri(), second.clone());
    let mut t = service();
    t.commit(uri(), second);
    check(same(&ask(&s, k, p), &ask(&t, k, p)), "an answer depends on the history of the document");
    reach("same");
}
const EDITED: &[&str] = &["(module (func $a (param i32)) (start $a))", "(module (global $g i32) (func (drop (global.get $g))))"];
/// only the trivia in one gap differs between the two texts: white space or a comment comes, goes or changes there (also before the first and after the last token)
pub fn history_edit() {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 99) as usize).min(EDITED.len()));
    let f = EDITED[lo + pick(hi - lo)];
    let toks = lex(f);
    let g = pick(toks.len() + 1);
    let at = if g < toks.len() { toks[g].a } else { f.len() };
    let make = |shape: usize| {
        let mut b = Vec::with_capacity(f.len() + 8);
        b.extend_from_slice(&f.as_bytes()[..at]);
        match shape {
            0 => {}
            1 => { let c = byte(9, 32); assume(c == b' ' || c == b'\n' || c == b'\t'); b.push(c) }
            2 => { b.extend_from_slice(b";;"); b.push(byte(b'a', b'z')); b.push(b'\n') }
            _ => b.extend_from_slice(b"\n\n"),
        }
        b.extend_from_slice(&f.as_bytes()[at..]);
        unsafe { String::from_utf8_unchecked(b) }
    };
    let (i, j) = (pick(4), pick(4));
    assume(i != j || i == 1 || i == 2);
    let (first, second) = (make(i), make(j));
    note(&first);
    note(&second);
    let k = pick(POS_HANDLERS + RANGE_HANDLERS + DOC_HANDLERS);
    let p = if k >= POS_HANDLERS { Position::new(3, 0) } else if pick(2) == 0 { Position::new(0, at as u32) } else { Position::new(0, 9) };
    let mut s = service();
    s.commit(uri(), first);
    ask(&s, k, p);
    s.commit(uri(), second.clone());
    let mut t = service();
    t.commit(uri(), second);
    check(same(&ask(&s, k, p), &ask(&t, k, p)), "an answer depends on the history of the document");
    reach("same");
}
/// other documents do not matter: answers about a are the same before and after b is committed
pub fn isolated() {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 99) as usize).min(TEXTS.len()));
    let a = text_of(lo + pick(hi - lo), true);
    let b = text_of(pick(TEXTS.len()), false);
    note(&a);
    note(&b);
    let mut s = service();
    s.commit(uri(), a.clone());
    let n = a.len() as u32;
    let k = pick(POS_HANDLERS + RANGE_HANDLERS + DOC_HANDLERS);
    let p = Position::new(0, if k >= POS_HANDLERS { n } else { u32_in(0, n) });
    let before = ask(&s, k, p);
    s.commit(uri_b(), b);
    ask_doc(&s, &uri_b(), 4);
    check(same(&before, &ask(&s, k, p)), "an answer about one document depends on another");
    reach("same");
}
/// trivia of a document does not matter to whether it is diagnosed: kept for the thorough tier
pub fn ask_trivia() {
    let (lo, hi) = span();
    let f = field(lo + pick(hi - lo));
    let toks = lex(&f);
    let g = pick(toks.len() + 1);
    let at = if g < toks.len() { toks[g].a } else { f.len() };
    let mut b = f.as_bytes()[..at].to_vec();
    trivia(&mut b, param(2, 1) as usize);
    b.extend_from_slice(&f.as_bytes()[at..]);
    let src = unsafe { String::from_utf8_unchecked(b) };
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let k = pick(DOC_HANDLERS);
    let d = doc_of(&src);
    structure(&d, &ask_doc(&s, &uri(), k), Position::new(0, 0), Position::new(0, 0));
    reach("document");
}
#[allow(dead_code)] fn _unused(s: &Doc) -> usize { s.src.len() + window("", 0, 0).len() }
