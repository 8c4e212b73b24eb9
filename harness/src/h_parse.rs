//! P01 (lossless parsing), P02 (syntax verdicts)
use crate::common::*;
use crate::corpus::*;
use crate::sym::*;
use wat_parser::Parser;
use wat_syntax::{SyntaxElement, SyntaxKind, SyntaxNode};

pub fn ascii(n: usize) -> String {
    let mut b = Vec::with_capacity(n);
    for _ in 0..n { b.push(byte(0, 127)); }
    unsafe { String::from_utf8_unchecked(b) }
}
/// one arbitrary char of at most 3 UTF-8 bytes: 1, 2 or 3 bytes long (picked), any value
fn any_char(out: &mut Vec<u8>) {
    match pick(4) {
        0 => out.push(byte(0, 127)),
        1 => { out.push(byte(0xC2, 0xDF)); out.push(byte(0x80, 0xBF)); }
        2 => { out.push(byte(0xE1, 0xEC)); out.push(byte(0x80, 0xBF)); out.push(byte(0x80, 0xBF)); }
        _ => { out.push(byte(0xF1, 0xF3)); out.push(byte(0x80, 0xBF)); out.push(byte(0x80, 0xBF)); out.push(byte(0x80, 0xBF)); }
    }
}
fn lossless(s: &str) {
    note(s);
    let mut p = Parser::new(s);
    let root: SyntaxNode = p.parse();
    let t = root.to_string();
    check(t.len() == s.len() && t == s, "text of the parsed tree equals the source");
    // the leaves tile the source: contiguous, in order, none empty
    let mut at = 0usize;
    for e in root.descendants_with_tokens() {
        if let SyntaxElement::Token(t) = e {
            let r = t.text_range();
            check(usize::from(r.start()) == at && !r.is_empty(), "leaves are contiguous and non-empty");
            at = r.end().into();
        }
    }
    reach("end");
}
/// n fully symbolic ASCII bytes
pub fn parse_bytes() { let s = ascii(param(0, 3) as usize); lossless(&s) }
/// n fully symbolic chars (1–4 bytes each)
pub fn parse_chars() {
    let mut b = vec![];
    for _ in 0..param(0, 2) { any_char(&mut b) }
    lossless(&unsafe { String::from_utf8_unchecked(b) })
}
/// a window of w symbolic ASCII bytes placed at any position of a well-formed module, replacing `del` bytes
pub fn window(src: &str, w: usize, del: usize) -> String {
    let pos = pick(src.len() + 1 - del.min(src.len()));
    let mut b = Vec::with_capacity(src.len() + w);
    b.extend_from_slice(&src.as_bytes()[..pos]);
    for _ in 0..w { b.push(byte(0, 127)); }
    b.extend_from_slice(&src.as_bytes()[(pos + del).min(src.len())..]);
    unsafe { String::from_utf8_unchecked(b) }
}
/// params: lo, hi (field range), w, del
pub fn parse_window() {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(FIELDS.len()));
    let f = field(lo + pick(hi - lo));
    let s = window(&f, param(2, 1) as usize, param(3, 0) as usize);
    lossless(&s)
}
/// a prefix of a well-formed module followed by w symbolic bytes
pub fn parse_prefix() {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(FIELDS.len()));
    let f = field(lo + pick(hi - lo));
    let cut = pick(f.len());
    let mut b = f.as_bytes()[..cut].to_vec();
    for _ in 0..param(2, 1) { b.push(byte(0, 127)); }
    lossless(&unsafe { String::from_utf8_unchecked(b) })
}

// ------------------------------------------------------------------------------- P02
/// further module fields, for the grammar only
const MORE: [&str; 16] = [
    "(func (call_indirect $t (type 0) (param i32) (result i64) (i32.const 0)))",
    "(func (if $l (param i32) (i32.eqz (i32.const 1)) (then (if (nop) (then nop))) (else block nop end)))",
    "(func block (type 0) (param i32) loop if nop else if end end end end)",
    "(func (export \"\") (type $t) (result i32) (local) nop)",
    "(func memory.init $m 0 (memory.copy 0 $m (nop)) table.get 0)",
    "(func (br_table $a 1 2 (br_if 0)) select (select))",
    "(func i64.load8_s offset=0x1_f align=8 (v128.load8_lane align=1 0))",
    "(elem (offset i32.const 0 i32.const 1 i32.add) externref (item) (item nop nop))",
    "(elem func)", "(elem (nop))", "(elem (nop) func 0 $a)", "(elem $e declare externref)",
    "(data (offset))", "(table $t 0x1 2_0 externref)", "(table funcref (elem))",
    "(global v128 nop (nop)) (memory (data)) (global $a (export \"\\\\\") f64)",
];
pub fn gfield() -> String {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(FIELDS.len() + MORE.len()));
    let i = lo + pick(hi - lo);
    if i < FIELDS.len() { return field(i) }
    let mut s = String::from("(module ");
    s.push_str(MORE[i - FIELDS.len()]);
    s.push(')');
    s
}
fn verdict(s: &str) {
    note(s);
    let mut p = Parser::new(s);
    let root: SyntaxNode = p.parse();
    let has_error_token = root.descendants_with_tokens().any(|e| e.kind() == SyntaxKind::ERROR);
    for e in p.errors() {
        check(e.start <= e.end && e.end <= s.len(), "error range lies in the source");
        check(s.is_char_boundary(e.start) && s.is_char_boundary(e.end), "error range is on character boundaries");
    }
    let clean = p.errors().is_empty();
    if clean {
        check(!has_error_token, "no errors reported but the tree contains an error token");
        // reference lexer: balanced, nothing unlexable
        let (mut depth, mut ok) = (0i32, true);
        for t in lex(s) {
            match t.k { K::L => depth += 1, K::R => { depth -= 1; if depth < 0 { ok = false } } K::Bad => ok = false, _ => {} }
        }
        check(ok && depth == 0, "no errors reported but the source is not lexically well-formed and balanced");
        check(crate::grammar::recognise(s, false), "no errors reported but the source does not follow the grammar");
        if param(4, 0) == 1 { check(crate::grammar::recognise(s, true), "(self-test) passes, but is not well-formed beyond doubt"); }
        reach("clean");
    } else {
        check(!crate::grammar::recognise(s, true), "errors reported but the source follows the grammar");
        reach("errors");
    }
}
pub fn verdict_bytes() { let s = ascii(param(0, 3) as usize); verdict(&s) }
pub fn verdict_window() {
    let f = gfield();
    let s = window(&f, param(2, 1) as usize, param(3, 0) as usize);
    verdict(&s)
}

/// a token or a whole parenthesised group of a well-formed module is put elsewhere, next to a symbolic byte
/// (and removed from where it was, or not). params: lo, hi, lowest and highest value of the byte
pub fn verdict_moved() { let s = moved(); verdict(&s) }
pub fn moved() -> String {
    let f = gfield();
    let toks: Vec<T> = lex(&f).into_iter().filter(|t| !t.trivia()).collect();
    let i = 2 + pick(toks.len() - 3);
    let mut end = i + 1;
    if toks[i].k == K::R { assume(false) }
    if toks[i].k == K::L {
        let mut depth = 1;
        while depth > 0 { match toks[end].k { K::L => depth += 1, K::R => depth -= 1, _ => {} } end += 1 }
    }
    let g = 2 + pick(toks.len() - 3); // put before this token
    if g > i && g < end { assume(false) }
    let keep = flag();
    let (a, b) = (toks[i].a, toks[end - 1].b);
    let mut out: Vec<u8> = vec![];
    for k in 0..toks.len() {
        if k == g {
            out.extend_from_slice(&f.as_bytes()[a..b]);
            out.push(byte(param(2, 0) as u8, param(3, 127) as u8));
        }
        if keep || k < i || k >= end { out.extend_from_slice(&f.as_bytes()[toks[k].a..toks[k].b]); out.push(b' ') }
    }
    unsafe { String::from_utf8_unchecked(out) }
}

/// one piece of trivia with symbolic content, always valid between two tokens
/// (a line comment is closed by a newline, so it can be put anywhere)
pub fn trivia(out: &mut Vec<u8>, n: usize) {
    match pick(4) {
        0 => for _ in 0..n.max(1) {
            let c = byte(9, 32);
            assume(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r');
            out.push(c)
        },
        1 => {
            out.extend_from_slice(b" ;;");
            for _ in 0..n { let c = byte(1, 127); assume(c != b'\n' && c != b'\r'); out.push(c) }
            if flag() { out.push(b'\r') }
            out.push(b'\n');
        }
        2 => {
            out.extend_from_slice(b"(;");
            let a = out.len();
            for _ in 0..n { out.push(byte(1, 127)) }
            // no nested opener/closer formed inside
            for i in a..out.len() {
                let next = if i + 1 < out.len() { out[i + 1] } else { b';' };
                assume(!(out[i] == b'(' && next == b';') && !(out[i] == b';' && next == b')'));
            }
            if n > 0 { assume(out[a] != b')'); }
            out.extend_from_slice(b";)");
        }
        _ => { // nested block comment
            out.extend_from_slice(b"(; (;");
            let c = byte(1, 127);
            assume(c != b'(' && c != b';' && c != b')');
            out.push(c);
            out.extend_from_slice(b";) ;)");
        }
    }
}
/// is there any error or unexpected thing in this supposedly well-formed source?
fn accepted(s: &str) {
    note(s);
    let mut p = Parser::new(s);
    let root: SyntaxNode = p.parse();
    check(p.errors().is_empty(), "a well-formed source is reported as malformed");
    // every token boundary of the reference lexer is a leaf boundary of the tree, and trivia agree
    let toks = lex(s);
    let mut i = 0;
    for e in root.descendants_with_tokens() {
        if let SyntaxElement::Token(t) = e {
            let r = t.text_range();
            let (a, b) = (usize::from(r.start()), usize::from(r.end()));
            while i < toks.len() && toks[i].b <= a { i += 1 }
            check(i < toks.len() && toks[i].a <= a && b <= toks[i].b, "a leaf of the tree straddles two tokens");
            let k = t.kind();
            let want = match toks[i].k {
                K::Ws => k == SyntaxKind::WHITESPACE,
                K::Line => k == SyntaxKind::LINE_COMMENT,
                K::Block => k == SyntaxKind::BLOCK_COMMENT,
                K::L => k == SyntaxKind::L_PAREN,
                K::R => k == SyntaxKind::R_PAREN,
                K::Str => k == SyntaxKind::STRING,
                _ => !matches!(k, SyntaxKind::WHITESPACE | SyntaxKind::LINE_COMMENT | SyntaxKind::BLOCK_COMMENT | SyntaxKind::L_PAREN | SyntaxKind::R_PAREN | SyntaxKind::STRING | SyntaxKind::ERROR),
            };
            check(want, "a leaf of the tree has the wrong kind");
        }
    }
    reach("accepted");
}
/// well-formed field with symbolic trivia at any token gap. params: lo, hi, n
pub fn wf_trivia() {
    let f = if crate::gen::on() { crate::gen::source() } else {
        let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(FIELDS.len()));
        let i = lo + pick(hi - lo);
        assume(i != V128_FIELD); // vector constants are outside the grammar this tool supports
        field(i)
    };
    let toks = lex(&f);
    let g = pick(toks.len() + 1);
    let at = if g < toks.len() { toks[g].a } else { f.len() };
    let mut b = f.as_bytes()[..at].to_vec();
    trivia(&mut b, param(2, 1) as usize);
    b.extend_from_slice(&f.as_bytes()[at..]);
    accepted(&unsafe { String::from_utf8_unchecked(b) })
}

// ---- literals, per the WebAssembly text-format grammar
fn digits(s: &[u8], i: &mut usize, hex: bool) -> bool {
    let is = |c: u8| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() };
    if *i >= s.len() || !is(s[*i]) { return false }
    *i += 1;
    loop {
        if *i < s.len() && is(s[*i]) { *i += 1 }
        else if *i + 1 < s.len() && s[*i] == b'_' && is(s[*i + 1]) { *i += 2 }
        else { return true }
    }
}
/// (is integer literal, is float literal)
pub fn number(s: &[u8]) -> (bool, bool) {
    let mut i = 0;
    if i < s.len() && (s[i] == b'+' || s[i] == b'-') { i += 1 }
    let r = &s[i..];
    if r == b"inf" || r == b"nan" { return (false, true) }
    if r.len() > 6 && &r[..6] == b"nan:0x" { let mut k = 6; return (false, digits(r, &mut k, true) && k == r.len()) }
    let hex = r.len() >= 2 && r[0] == b'0' && r[1] == b'x';
    let mut k = if hex { 2 } else { 0 };
    if !digits(r, &mut k, hex) { return (false, false) }
    if k == r.len() { return (true, true) }
    if r[k] == b'.' { k += 1; if k < r.len() && !(if hex { r[k] == b'p' || r[k] == b'P' } else { r[k] == b'e' || r[k] == b'E' }) { if !digits(r, &mut k, hex) { return (false, false) } } }
    if k == r.len() { return (false, true) }
    let e = r[k];
    if !(if hex { e == b'p' || e == b'P' } else { e == b'e' || e == b'E' }) { return (false, false) }
    k += 1;
    if k < r.len() && (r[k] == b'+' || r[k] == b'-') { k += 1 }
    (false, digits(r, &mut k, false) && k == r.len())
}
/// n symbolic identifier characters as the operand of a constant: accepted exactly when they form a number.
/// param 1 selects a concrete prefix that reaches deeper literal shapes.
pub fn literal() {
    let pre: &[u8] = [&b""[..], b"0x", b"1.", b"1e", b"0x1p", b"nan:0x", b"0x1.", b"-", b"1_", b"nan", b"inf", b"-0xa_", b"+0x1.", b"-1_0.", b"nan:0x1_", b"0x1.8_", b"+nan", b"-inf"][pick(18)];
    let n = param(0, 2) as usize;
    let mut lit = pre.to_vec();
    for _ in 0..n { let c = byte(33, 126); assume(is_idc(c)); lit.push(c) }
    assume(lit[0] != b'$' );
    let mut b = b"(module (func (f64.const ".to_vec();
    b.extend_from_slice(&lit);
    b.extend_from_slice(b")))");
    let s = unsafe { String::from_utf8_unchecked(b) };
    let (int, float) = number(&lit);
    note(&s);
    let mut p = Parser::new(&s);
    p.parse();
    let clean = p.errors().is_empty();
    if int || float { check(clean, "a well-formed number is reported as malformed"); reach("number") }
    else if clean && lit.windows(2).any(|w| w == b"__") { reach("KF-double-underscore") }
    else { check(!clean, "a malformed number is accepted"); reach("not a number") }
}
/// `$` followed by symbolic chars is an identifier exactly for identifier characters
pub fn ident_chars() {
    let n = param(0, 1) as usize;
    let ctx: [(&str, &str); 4] = [("(module $", ")"), ("(module (func (call $", ")))"), ("(module (global $", " i32 (i32.const 0)))"), ("(module (func (block $", " (nop))))")];
    let (l, r) = ctx[pick(4)];
    let mut b = l.as_bytes().to_vec();
    for _ in 0..n { let c = byte(33, 126); assume(is_idc(c)); b.push(c) }
    b.extend_from_slice(r.as_bytes());
    accepted(&unsafe { String::from_utf8_unchecked(b) })
}
/// string literals with symbolic contents
pub fn string_chars() {
    let ctx: [(&str, &str); 4] = [("(module (data \"", "\"))"), ("(module (import \"", "\" \"b\" (func)))"), ("(module (func (export \"", "\")))"), ("(module (data (i32.const 0) \"x\" \"", "\" \"y\"))")];
    let (l, r) = ctx[pick(4)];
    let mut b = l.as_bytes().to_vec();
    for _ in 0..param(0, 1) {
        match pick(4) {
            0 => { let c = byte(32, 126); assume(c != b'"' && c != b'\\'); b.push(c) }
            1 => { b.push(b'\\'); let c = byte(0, 127); assume(c == b't' || c == b'n' || c == b'r' || c == b'"' || c == b'\'' || c == b'\\'); b.push(c) }
            2 => { b.push(b'\\'); for _ in 0..2 { let c = byte(0, 127); assume(c.is_ascii_hexdigit()); b.push(c) } }
            _ => { b.extend_from_slice(b"\\u{"); let c = byte(0, 127); assume(c.is_ascii_hexdigit()); b.push(c); b.push(b'}') }
        }
    }
    b.extend_from_slice(r.as_bytes());
    accepted(&unsafe { String::from_utf8_unchecked(b) })
}
