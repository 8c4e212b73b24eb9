//! P13: semantic tokens
use crate::common::*;
use crate::corpus::*;
use crate::h_parse::trivia;
use crate::sym::*;
use lsp_types::*;
use wat_service::LanguageService;

const TYPE: u32 = 1; const PARAM: u32 = 2; const VAR: u32 = 4; const FUNC: u32 = 8; const KEYWORD: u32 = 16; const COMMENT: u32 = 32; const STRING: u32 = 64; const NUMBER: u32 = 128; const OP: u32 = 256; const NONE: u32 = 512;
fn all() -> Vec<SemanticTokenType> {
    vec![SemanticTokenType::TYPE, SemanticTokenType::PARAMETER, SemanticTokenType::VARIABLE, SemanticTokenType::FUNCTION, SemanticTokenType::KEYWORD,
        SemanticTokenType::COMMENT, SemanticTokenType::STRING, SemanticTokenType::NUMBER, SemanticTokenType::OPERATOR]
}
/// a service for a client that knows these types, and the bit of each index of the legend it answers
fn service_for(types: Vec<SemanticTokenType>) -> (LanguageService, Vec<u32>) {
    let mut p = init_params();
    p.capabilities.text_document.as_mut().unwrap().semantic_tokens.as_mut().unwrap().token_types = types;
    let mut s = LanguageService::default();
    let r = s.initialize(p);
    let all = all();
    let legend = match r.capabilities.semantic_tokens_provider {
        Some(SemanticTokensServerCapabilities::SemanticTokensOptions(o)) => o.legend.token_types,
        _ => vec![],
    };
    let bits = legend.iter().map(|t| all.iter().position(|x| x == t).map_or(0, |i| 1 << i)).collect();
    (s, bits)
}
/// a client: all types (0), all but one (1..=9), all in reverse order and a foreign one (10), few (11)
fn client(k: usize) -> Vec<SemanticTokenType> {
    let mut v = all();
    match k { 0 => {} 1..=9 => { v.remove(k - 1); } 10 => { v.reverse(); v.insert(3, SemanticTokenType::MACRO) } _ => v.truncate(4) }
    v
}
fn full(s: &LanguageService) -> Vec<SemanticToken> {
    match s.semantic_tokens_full(SemanticTokensParams { text_document: doc(), work_done_progress_params: Default::default(), partial_result_params: Default::default() }) {
        Some(SemanticTokensResult::Tokens(t)) => t.data, _ => vec![],
    }
}
fn ranged(s: &LanguageService, r: Range) -> Vec<SemanticToken> {
    match s.semantic_tokens_range(SemanticTokensRangeParams { text_document: doc(), range: r, work_done_progress_params: Default::default(), partial_result_params: Default::default() }) {
        Some(SemanticTokensRangeResult::Tokens(t)) => t.data, _ => vec![],
    }
}
/// positions, lengths and types (bits), as a client decodes them
fn decode(v: &[SemanticToken], bits: &[u32]) -> Vec<(Position, u32, u32)> {
    let (mut l, mut c) = (0u32, 0u32);
    let mut out = Vec::with_capacity(v.len());
    for t in v {
        l = l.wrapping_add(t.delta_line);
        c = if t.delta_line == 0 { c.wrapping_add(t.delta_start) } else { t.delta_start };
        check((t.token_type as usize) < bits.len(), "a token type outside of the legend");
        out.push((Position::new(l, c), t.length, bits[t.token_type as usize]));
    }
    out
}
const KEYWORDS: &[&str] = &["module", "type", "func", "param", "result", "local", "import", "export", "start", "global", "mut", "memory", "data", "offset", "table", "elem", "declare", "item", "then", "else", "end", "block", "loop", "if"];
const TYPES: &[&str] = &["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];
/// what the i-th of the tokens `w` (no trivia) may be shown as. `param`: whether an operand of local.get & co. is a param
fn class(src: &str, w: &[T], i: usize, param: impl Fn(usize) -> u32) -> u32 {
    let text = |k: usize| &src[w[k].a..w[k].b];
    let prev = |n: usize| if i >= n { text(i - n) } else { "" };
    let t = text(i);
    let c = t.as_bytes()[0];
    let func_ref = matches!(prev(1), "call" | "ref.func" | "return_call" | "start") || prev(1) == "func" && prev(2) == "(";
    match w[i].k {
        K::L | K::R => NONE,
        K::Str => STRING,
        K::Word if prev(1) == "ref.null" || prev(1) == "v128.const" => 1023,
        K::Word if t.starts_with("offset=") || t.starts_with("align=") || t == "shared" => 1023,
        K::Word if c == b'$' && func_ref => if i >= 3 && w[i - 3].k == K::Str && i >= 5 && text(i - 5) == "import" { FUNC | VAR } else { FUNC },
        K::Word if c == b'$' && prev(1) == "param" => PARAM,
        K::Word if prev(1).starts_with("local.") => param(i),
        K::Word if c == b'$' => { let mut k = i; while k > 0 && w[k].k != K::L && text(k) != "elem" { k -= 1 } if text(k) == "elem" || k + 1 < i && text(k + 1) == "elem" { VAR | FUNC } else { VAR } }
        K::Word if c.is_ascii_digit() || c == b'-' || c == b'+' || t == "inf" || t.starts_with("nan") => if func_ref { FUNC } else if prev(1) == "func" { NUMBER | FUNC } else { NUMBER },
        K::Word if TYPES.contains(&t) => TYPE,
        K::Word if KEYWORDS.contains(&t) => KEYWORD,
        K::Word => OP,
        _ => 1023,
    }
}
/// the tokens a client that knows `known` must be shown: (position, length, types)
fn expected(src: &str, known: u32, param: impl Fn(&[T], usize) -> u32) -> Vec<(Position, u32, u32)> {
    let toks = lex(src);
    let w: Vec<T> = toks.iter().filter(|t| !t.trivia()).copied().collect();
    let mut i = 0;
    let mut out = Vec::with_capacity(toks.len());
    for t in &toks {
        let c = match t.k { K::Ws => continue, K::Line | K::Block => COMMENT, _ => { i += 1; class(src, &w, i - 1, |k| param(&w, k)) } };
        out.push((pos_of(src, t.a), (t.b - t.a) as u32, if c & known == 0 || c == NONE { NONE } else { c }));
    }
    out
}
/// got is what is expected (tokens that may be missing: NONE, or a type the client does not know)
fn matches(got: &[(Position, u32, u32)], want: &[(Position, u32, u32)], known: u32) -> bool {
    let mut g = 0;
    for (p, n, c) in want {
        let here = g < got.len() && got[g].0 == *p;
        if here { if got[g].1 != *n || got[g].2 & c == 0 { return false } g += 1 }
        else if c & NONE == 0 && c & !known == 0 { return false }
    }
    g == got.len()
}
fn known_of(bits: &[u32]) -> u32 { bits.iter().fold(0, |a, b| a | b) }
/// every field, one piece of trivia anywhere, any client. params: lo, hi, bytes in the trivia, clients
pub fn sem_trivia() {
    let f = crate::h_edit::any_source();
    let toks = lex(&f);
    let g = pick(toks.len() + 1);
    let at = if g < toks.len() { toks[g].a } else { f.len() };
    let mut b = f.as_bytes()[..at].to_vec();
    if g > 0 && toks[g - 1].k == K::Line { b.push(b'\n') }
    if param(2, 1) > 0 { trivia(&mut b, param(2, 1) as usize) }
    for i in at..b.len() { assume(b[i] != b'\r') }
    b.extend_from_slice(&f.as_bytes()[at..]);
    let src = unsafe { String::from_utf8_unchecked(b) };
    note(&src);
    let (mut s, bits) = service_for(client(pick(param(3, 1) as usize)));
    s.commit(uri(), src.clone());
    let known = known_of(&bits);
    let got = decode(&full(&s), &bits);
    check(matches(&got, &expected(&src, known, |_, _| PARAM | VAR), known), "semantic tokens are not those of the text");
    reach("tokens");
}
/// functions, params and locals: names symbolic. params: letters
pub fn sem_names() {
    const T: &[&str] = &[
        "(module (func $@ (param $@ i32) (local $@ i32) (drop (local.get $@)) (local.set 0 (local.tee $@)) (local.set 1) (block $@ (br $@)) (call $@) (call 0)) (global $@ i32) (start $@))",
        "(module (func $@ (param i32) (param $@ i32) (local.set $@)) (func (local $@ f32) (local.get $@) (local.get 0)) (export \"a\" (func $@)) (export \"g\" (global $@)) (func (global.get $@)))",
        "(module (func (param $@ i32) (param $@ i32) (local $@ i32) local.get 0 local.get 1 local.get 2 local.get 3 local.get $@))",
    ];
    let t = T[pick(T.len())];
    let n = param(0, 2) as u8;
    let mut v = Vec::with_capacity(200);
    for c in t.bytes() { v.push(if c == b'@' { byte(b'a', b'a' + n - 1) } else { c }) }
    let src = unsafe { String::from_utf8_unchecked(v) };
    note(&src);
    let (mut s, bits) = service_for(all());
    s.commit(uri(), src.clone());
    let got = decode(&full(&s), &bits);
    // which definition an operand of local.* denotes, by the rules of the text format (several: any of them)
    let want = expected(&src, 511, |w, i| {
        let text = |k: usize| &src[w[k].a..w[k].b];
        let mut f = i;
        while !(text(f) == "(" && text(f + 1) == "func") { f -= 1 }
        let (mut idx, mut c, mut k) = (0, 0, f + 2);
        while k < i {
            if text(k) == "param" || text(k) == "local" {
                let kind = if text(k) == "param" { PARAM } else { VAR };
                let named = text(k + 1).starts_with('$');
                let me = if text(i).starts_with('$') { named && text(k + 1) == text(i) } else { text(i).as_bytes()[0] == b'0' + idx };
                if me { c |= kind }
                idx += 1;
            }
            k += 1;
        }
        if c == 0 { VAR } else { c }
    });
    check(matches(&got, &want, 511), "identifiers are shown as something else than they are");
    reach("names");
}
/// a document being edited (line breaks included): tokens do not overlap, lie in the text, and are what they are shown as. params: lo, hi, w, del, clients
pub fn sem_edited() {
    let f = crate::h_edit::any_source();
    let (n, del) = (param(2, 1) as usize, param(3, 0) as usize);
    let at = pick(f.len() + 1 - del.min(f.len()));
    let mut b = f.as_bytes()[..at].to_vec();
    for _ in 0..n { b.push(byte(0, 127)) }
    b.extend_from_slice(b"\n");
    b.extend_from_slice(&f.as_bytes()[(at + del).min(f.len())..]);
    let src = unsafe { String::from_utf8_unchecked(b) };
    note(&src);
    let clients = param(4, 1) as usize;
    let (mut s, bits) = service_for(client(if clients > 1 { 6 } else { 0 }));
    s.commit(uri(), src.clone());
    let b = src.as_bytes();
    let (mut line, mut start, mut end) = (0, 0, 0); // current line, where it starts, where the last token ends
    let mut first = true;
    for (p, n, c) in decode(&full(&s), &bits) {
        while line < p.line { match b[start..].iter().position(|c| *c == b'\n') { Some(k) => { start += k + 1; line += 1 } None => { check(false, "a semantic token beyond the last line"); return } } }
        let a = start + p.character as usize;
        check(a + n as usize <= b.len() && n > 0, "a semantic token beyond the text");
        check(first || a >= end, "semantic tokens overlap");
        check(!b[start..a].contains(&b'\n'), "a semantic token starts beyond its line");
        let x = b[a];
        let ok = match c {
            STRING => x == b'"',
            COMMENT => (x == b';' && b[a + 1] == b';') || (x == b'(' && b[a + 1] == b';'),
            NUMBER => x.is_ascii_digit() || x == b'-' || x == b'+' || x == b'n' || x == b'i',
            FUNC | PARAM | VAR => x == b'$' || x.is_ascii_digit(),
            _ => x.is_ascii_lowercase(),
        };
        check(ok, "a semantic token is not where its text is");
        first = false;
        end = a + n as usize;
    }
    reach("edited");
}
/// the tokens of a range are those of the document which the range touches. params: lo, hi
pub fn sem_range() {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 99) as usize).min(FIELDS.len()));
    let i = lo + pick(hi - lo + BIG.len());
    let src = if i < hi { field(i) } else { BIG[i - hi].to_string() };
    note(&src);
    let (mut s, bits) = service_for(all());
    s.commit(uri(), src.clone());
    let toks = lex(&src);
    let whole = decode(&full(&s), &bits);
    let ((p, a), (q, b)) = (sym_pos(&src), sym_pos(&src));
    assume(a <= b);
    let raw = ranged(&s, Range::new(p, q));
    let mut got = decode(&raw, &bits);
    // which tokens are touched (forks on the symbolic ends)
    let mut want: Vec<(Position, u32, u32)> = vec![];
    let mut origin = None;
    for t in &toks {
        if t.b <= a || t.a >= b { continue }
        let at = pos_of(&src, t.a);
        if origin.is_none() { origin = Some((t.k == K::Ws, at)) }
        if let Some(x) = whole.iter().find(|x| x.0 == at) { want.push(*x) }
    }
    // listed finding: columns of the first line are relative to where the first token of the range starts
    if let (Some((_, o)), Some(w), Some(g)) = (origin, want.first(), got.first()) {
        if w.0 != g.0 && w.0.line == o.line && g.0.line == o.line && g.0.character + o.character == w.0.character {
            reach("KF-range-origin");
            let l = o.line;
            for x in &mut got { if x.0.line == l { x.0.character += o.character } }
        }
    }
    check(got == want, "the tokens of a range are not those of the document in that range");
    reach("range");
}
