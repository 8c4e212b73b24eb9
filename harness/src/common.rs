//! Shared, independent reference pieces: lexer, position arithmetic, edit application, corpus, service driver.
#![allow(dead_code)]
use crate::sym::*;
use lsp_types::*;
use std::str::FromStr;
use wat_service::LanguageService;

// ---------------------------------------------------------------- service driver
pub fn uri() -> Uri { Uri::from_str("untitled:a").unwrap() }
pub fn uri_b() -> Uri { Uri::from_str("untitled:b").unwrap() }
pub fn doc() -> TextDocumentIdentifier { TextDocumentIdentifier { uri: uri() } }
pub fn init_params() -> InitializeParams {
    InitializeParams {
        capabilities: ClientCapabilities {
            text_document: Some(TextDocumentClientCapabilities {
                semantic_tokens: Some(SemanticTokensClientCapabilities {
                    token_types: vec![
                        SemanticTokenType::TYPE, SemanticTokenType::PARAMETER, SemanticTokenType::VARIABLE,
                        SemanticTokenType::FUNCTION, SemanticTokenType::KEYWORD, SemanticTokenType::COMMENT,
                        SemanticTokenType::STRING, SemanticTokenType::NUMBER, SemanticTokenType::OPERATOR,
                    ],
                    ..Default::default()
                }),
                ..Default::default()
            }),
            ..Default::default()
        },
        ..Default::default()
    }
}
/// a service as the server holds it after `initialize`; lazily built tables are forced (concretely)
/// before any symbolic input exists
pub fn service() -> LanguageService {
    let mut s = LanguageService::default();
    s.initialize(init_params());
    s
}
/// force lazily initialised tables before any symbolic input exists
pub fn warm() {
    let mut s = service();
    s.commit(uri(), "(module (func (param i32) (drop (i32.add (local.get 0) (i32.const 1)))))".into());
    let _ = diags(&s);
}
pub fn diags(s: &LanguageService) -> Vec<Diagnostic> { s.publish_diagnostics(uri()).diagnostics }
pub fn tdpp(p: Position) -> TextDocumentPositionParams {
    TextDocumentPositionParams { text_document: doc(), position: p }
}
pub fn goto_params(p: Position) -> GotoDefinitionParams {
    GotoDefinitionParams { text_document_position_params: tdpp(p), work_done_progress_params: Default::default(), partial_result_params: Default::default() }
}

// ---------------------------------------------------------------- positions (reference)
/// offset -> position, computed directly from the text (columns count bytes: all texts are ASCII here)
pub fn pos_of(src: &str, off: usize) -> Position {
    let b = src.as_bytes();
    let (mut line, mut col, mut i) = (0u32, 0u32, 0);
    while i < off { if b[i] == b'\n' { line += 1; col = 0 } else { col += 1 } i += 1; }
    Position::new(line, col)
}
pub fn range_of(src: &str, a: usize, b: usize) -> Range { Range::new(pos_of(src, a), pos_of(src, b)) }
/// position -> offset; None when it is not a position of the text
pub fn off_of(src: &str, p: Position) -> Option<usize> {
    let b = src.as_bytes();
    let (mut line, mut i) = (0u32, 0usize);
    while line < p.line { if i >= b.len() { return None } if b[i] == b'\n' { line += 1 } i += 1; }
    let mut c = 0;
    while c < p.character { if i >= b.len() || b[i] == b'\n' { return None } i += 1; c += 1; }
    Some(i)
}
/// any position of the text: the line by forking, the column symbolic. Returns the position and its (symbolic) offset
pub fn sym_pos(src: &str) -> (Position, usize) {
    let lines: Vec<(usize, usize)> = { // (start, length) of every line
        let b = src.as_bytes();
        let mut v = vec![];
        let mut a = 0;
        for i in 0..=b.len() { if i == b.len() || b[i] == b'\n' { v.push((a, i - a)); a = i + 1; } }
        v
    };
    let l = pick(lines.len());
    let c = u32_in(0, lines[l].1 as u32);
    (Position::new(l as u32, c), lines[l].0 + c as usize)
}
/// as sym_pos, between two offsets of the text
pub fn sym_pos_in(src: &str, lo: usize, hi: usize) -> (Position, usize) {
    let b = src.as_bytes();
    let mut v = vec![]; // (line, its start, first and last column)
    let (mut a, mut line) = (0, 0u32);
    for i in 0..=b.len() { if i == b.len() || b[i] == b'\n' { if a.max(lo) <= i.min(hi) { v.push((line, a, a.max(lo) - a, i.min(hi) - a)) } a = i + 1; line += 1 } }
    let (l, a, from, to) = v[pick(v.len())];
    let c = u32_in(from as u32, to as u32);
    (Position::new(l, c), a + c as usize)
}
/// position of a text in symbolic-offset terms (None: not in the text); loops over lines only
pub fn off_of_sym(src: &str, p: Position) -> Option<usize> {
    let b = src.as_bytes();
    let (mut line, mut a) = (0u32, 0);
    for i in 0..=b.len() {
        if i == b.len() || b[i] == b'\n' {
            if line == p.line { return if p.character as usize <= i - a { Some(a + p.character as usize) } else { None } }
            a = i + 1;
            line += 1;
        }
    }
    None
}
pub fn apply(src: &str, edits: &[TextEdit]) -> Option<String> {
    let mut es: Vec<(usize, usize, &str)> = vec![];
    for e in edits {
        let (a, b) = (off_of(src, e.range.start)?, off_of(src, e.range.end)?);
        if a > b { return None }
        es.push((a, b, &e.new_text));
    }
    // insertion sort by start (few edits)
    for i in 1..es.len() { let mut j = i; while j > 0 && es[j - 1].0 > es[j].0 { es.swap(j - 1, j); j -= 1; } }
    let mut out = String::with_capacity(src.len() + 16);
    let mut at = 0;
    for (a, b, t) in es {
        if a < at { return None }
        out.push_str(&src[at..a]);
        out.push_str(t);
        at = b;
    }
    out.push_str(&src[at..]);
    Some(out)
}

// ---------------------------------------------------------------- reference lexer (WebAssembly text format)
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Ws, Line, Block, L, R, Str, Word, Bad }
#[derive(Clone, Copy, Debug)]
pub struct T { pub k: K, pub a: usize, pub b: usize }
impl T { pub fn trivia(&self) -> bool { matches!(self.k, K::Ws | K::Line | K::Block) } }
pub fn is_idc(c: u8) -> bool {
    c > 0x20 && c < 0x7f && !matches!(c, b'"' | b',' | b';' | b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'\'')
}
pub fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let n = b.len();
    let mut i = 0;
    let mut out = Vec::with_capacity(n / 2 + 2);
    while i < n {
        let a = i;
        let c = b[i];
        let k = if c == b' ' || c == b'\n' || c == b'\r' || c == b'\t' {
            while i < n && (b[i] == b' ' || b[i] == b'\n' || b[i] == b'\r' || b[i] == b'\t') { i += 1 }
            K::Ws
        } else if c == b';' && i + 1 < n && b[i + 1] == b';' {
            while i < n && b[i] != b'\n' && !(b[i] == b'\r' && i + 1 < n && b[i + 1] == b'\n') { i += 1 }
            K::Line
        } else if c == b'(' && i + 1 < n && b[i + 1] == b';' {
            let mut depth = 1; i += 2;
            while i < n && depth > 0 {
                if i + 1 < n && b[i] == b'(' && b[i + 1] == b';' { depth += 1; i += 2 }
                else if i + 1 < n && b[i] == b';' && b[i + 1] == b')' { depth -= 1; i += 2 }
                else { i += 1 }
            }
            if depth == 0 { K::Block } else { K::Bad }
        } else if c == b'(' { i += 1; K::L }
        else if c == b')' { i += 1; K::R }
        else if c == b'"' {
            i += 1;
            let mut ok = false;
            while i < n {
                if b[i] == b'"' { i += 1; ok = true; break }
                if b[i] == b'\n' || b[i] == b'\r' { break }
                if b[i] == b'\\' { i += 1; if i >= n { break } }
                i += 1;
            }
            if ok { K::Str } else { K::Bad }
        } else if is_idc(c) {
            while i < n && is_idc(b[i]) { i += 1 }
            K::Word
        } else { i += 1; K::Bad };
        out.push(T { k, a, b: i });
    }
    out
}
