//! P03 (formatting keeps the program), P04 (idempotence), P05 (range formatting)
use crate::common::*;
use crate::corpus::*;
use crate::h_parse::trivia;
use crate::sym::*;
use lsp_types::*;
use rowan::ast::AstNode;
use wat_formatter::config::*;
use wat_parser::Parser;
use wat_syntax::{ast::Root, SyntaxNode};

/// the tokens that matter: everything but whitespace
fn sig(s: &str) -> Vec<T> { let mut v = lex(s); v.retain(|t| t.k != K::Ws); v }
fn comment_body<'a>(s: &'a str, t: &T) -> &'a str {
    let x = &s[t.a..t.b];
    let x = if t.k == K::Line { &x[2..] } else { &x[2..x.len() - 2] };
    x.trim_matches([' ', '\t', '\r'])
}
/// same tokens and comments, in the same order
pub fn same_program(a: &str, b: &str, loose_comments: bool) -> bool {
    let (x, y) = (sig(a), sig(b));
    if x.len() != y.len() { return false }
    for i in 0..x.len() {
        if x[i].k != y[i].k { return false }
        let (p, q) = (&a[x[i].a..x[i].b], &b[y[i].a..y[i].b]);
        if loose_comments && x[i].trivia() { if comment_body(a, &x[i]) != comment_body(b, &y[i]) { return false } }
        else if p.len() != q.len() || p != q { return false }
    }
    true
}
pub fn fmt(s: &str, o: &FormatOptions) -> Option<String> {
    let mut p = Parser::new(s);
    let root = Root::cast(p.parse())?;
    if !p.errors().is_empty() { return None }
    Some(wat_formatter::format(&root, o))
}
pub fn options() -> FormatOptions {
    let mut o = FormatOptions::default();
    match param(3, 0) {
        0 => {}
        1 => { o.layout.print_width = 20; o.layout.indent_width = 4 }
        2 => { o.layout.use_tabs = true; o.layout.line_break = LineBreak::Crlf }
        3 => { o.language.format_comments = true }
        // symbolic layout (the width is only ever compared)
        _ => { o.layout.print_width = u32_in(1, 120) as usize; o.layout.indent_width = 1 + pick(3); o.layout.use_tabs = flag(); o.language.format_comments = flag(); if flag() { o.layout.line_break = LineBreak::Crlf } }
    }
    o
}
/// a field (or document), or one generated
fn plain_source(big: bool) -> String {
    if crate::gen::on() {
        let s = crate::gen::source();
        assume(!(s.starts_with("(module (func") && s.contains("(export") && s.contains("(import"))); // fmt_import_first
        return s
    }
    let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(FIELDS.len() + if big { BIG.len() } else { 0 }));
    let i = lo + pick(hi - lo);
    assume(i != V128_FIELD);
    if i < FIELDS.len() { field(i) } else { BIG[i - FIELDS.len()].to_string() }
}
fn with_trivia() -> String {
    let f = plain_source(false);
    let toks = lex(&f);
    let g = pick(toks.len() + 1);
    let at = if g < toks.len() { toks[g].a } else { f.len() };
    let mut b = f.as_bytes()[..at].to_vec();
    trivia(&mut b, param(2, 1) as usize);
    b.extend_from_slice(&f.as_bytes()[at..]);
    unsafe { String::from_utf8_unchecked(b) }
}
fn keeps(s: &str) {
    let o = options();
    note(s);
    if let Some(out) = fmt(s, &o) {
        note(&out);
        check(same_program(s, &out, o.language.format_comments), "formatting changed, dropped or reordered a token or comment");
        let mut p = Parser::new(&out);
        p.parse();
        check(p.errors().is_empty(), "formatted document has syntax errors");
        reach("formatted");
    }
}
/// a function exported before its import is given (known finding: the import is moved to the front, pinned by the repository's snapshots)
pub fn fmt_import_first() {
    let n = byte(b'a', b'z') as char;
    let (e1, e2, i) = (["(export \"", "\")"], ["(export \"b\")"], ["(import \"", "\" \"d\")"]);
    let (mut s, mut moved) = (String::with_capacity(120), String::with_capacity(120));
    s.push_str("(module (func "); moved.push_str(&s);
    let named = flag();
    if named { s.push_str("$f "); moved.push_str("$f ") }
    let put = |s: &mut String, p: &[&str]| { s.push_str(p[0]); if p.len() > 1 { s.push(n); s.push_str(p[1]) } s.push(' ') };
    let two = flag();
    put(&mut s, &e1);
    if two { put(&mut s, &e2) }
    put(&mut s, &i);
    put(&mut moved, &i);
    put(&mut moved, &e1);
    if two { put(&mut moved, &e2) }
    s.push_str("(param i32)))"); moved.push_str("(param i32)))");
    note(&s);
    let Some(out) = fmt(&s, &FormatOptions::default()) else { check(false, "a well-formed source is reported as malformed"); return };
    if same_program(&moved, &out, false) { reach("KF-import-first"); return }
    check(same_program(&s, &out, false), "formatting changed, dropped or reordered a token or comment");
}
pub fn fmt_keeps() { keeps(&with_trivia()) }
pub fn fmt_idem() {
    let s = with_trivia();
    let o = options();
    note(&s);
    if let Some(out) = fmt(&s, &o) {
        note(&out);
        if let Some(out2) = fmt(&out, &o) {
            note(&out2);
            check(out == out2, "formatting a formatted document changes it");
            reach("formatted twice");
        }
    }
}
fn put(f: &str, toks: &[T], g: usize, n: usize, k: usize) -> String {
    let at = if g < toks.len() { toks[g].a } else { f.len() };
    let mut b = f.as_bytes()[..at].to_vec();
    for _ in 0..k { trivia(&mut b, n) }
    b.extend_from_slice(&f.as_bytes()[at..]);
    unsafe { String::from_utf8_unchecked(b) }
}
/// two pieces of trivia in one gap. params: lo, hi, n, options
fn seq() -> String {
    let f = plain_source(false);
    let toks = lex(&f);
    let g = pick(toks.len() + 1);
    put(&f, &toks, g, param(2, 1) as usize, 2)
}
pub fn fmt_keeps_seq() { keeps(&seq()) }
fn idem(s: &str) {
    let o = options();
    note(s);
    if let Some(out) = fmt(s, &o) {
        note(&out);
        if let Some(out2) = fmt(&out, &o) {
            note(&out2);
            check(out == out2, "formatting a formatted document changes it");
            reach("formatted twice");
        }
    }
}
pub fn fmt_idem_seq() { idem(&seq()) }
/// whole documents: several modules and fields, trivia (1 or 2 pieces) anywhere. params: pieces, -, n, options
fn docs() -> String {
    let f = BIG[pick(BIG.len())].to_string();
    let toks = lex(&f);
    let g = pick(toks.len() + 1);
    put(&f, &toks, g, param(2, 1) as usize, param(0, 1) as usize)
}
pub fn fmt_keeps_docs() { keeps(&docs()) }
pub fn fmt_idem_docs() { idem(&docs()) }
/// a field under the ignore directive is reproduced verbatim; the directive is recognised only as a whole word
pub fn fmt_ignore() {
    let mut b = b"(module\n  (func   $a)\n  ;;".to_vec();
    let pre = pick(3);
    for _ in 0..pre { b.push(b' ') }
    b.extend_from_slice(b"fmt-ignore");
    let tail = pick(3);
    let mut ignored = true;
    for i in 0..tail { let c = byte(9, 126); assume(c != b'\n' && c != b'\r' && c != 11); if i == 0 { ignored = c == b' ' || c == b'\t' || c == 12; } b.push(c) }
    b.push(b'\n');
    let a = b.len();
    b.extend_from_slice(b"(func   $x");
    for _ in 0..2 { let c = byte(9, 32); assume(c == b' ' || c == b'\t' || c == b'\n'); b.push(c) }
    b.extend_from_slice(b"(nop)   )");
    let e = b.len();
    b.extend_from_slice(b"\n  (func   $c))");
    let s = unsafe { String::from_utf8_unchecked(b) };
    note(&s);
    let o = options();
    let Some(out) = fmt(&s, &o) else { check(false, "well-formed"); return };
    note(&out);
    check(same_program(&s, &out, o.language.format_comments), "formatting changed, dropped or reordered a token or comment");
    if ignored {
        check(out.contains(&s[a..e]) || o.layout.line_break as u8 == 1, "text under the ignore directive was reformatted");
        reach("ignored");
    } else { check(out.contains("(func $x"), "a field not under the ignore directive was left unformatted"); reach("not ignored") }
    check(out.contains("(func $c)") && out.contains("(func $a)"), "a field not under the ignore directive was left unformatted");
}

// ------------------------------------------------------------------------------- P05
/// the edit of a range-formatting request leaves the program unchanged and covers the requested range
pub fn fmt_range() {
    let mut src = plain_source(true);
    if param(2, 0) == 1 { src = fmt(&src, &FormatOptions::default()).unwrap() }
    if param(3, 0) >= 1 { let toks = lex(&src); let g = pick(toks.len() + 1); let at = if g < toks.len() { toks[g].a } else { src.len() }; src.insert_str(at, if param(3, 0) > 1 && flag() { "(;c;)" } else { " ;;c\n" }) }
    { let mut p = Parser::new(&src); p.parse(); assume(p.errors().is_empty()); }
    let mut s = service();
    s.commit(uri(), src.clone());
    note(&src);
    let (pa, a) = sym_pos(&src);
    // every node owns a token, so with a comment inserted single positions already select every node
    let (pe, e) = if param(3, 0) & 1 == 1 { (pa, a) } else { sym_pos(&src) };
    assume(a <= e);
    let (tab, spaces) = if param(3, 0) >= 1 { (2, true) } else { (1 + pick(3) as u32, flag()) };
    let p = DocumentRangeFormattingParams {
        text_document: doc(), range: Range::new(pa, pe),
        options: FormattingOptions { tab_size: tab, insert_spaces: spaces, ..Default::default() },
        work_done_progress_params: Default::default(),
    };
    if let Some(edits) = s.range_formatting(p) {
        check(edits.len() == 1, "one edit");
        let (x, y) = (off_of(&src, edits[0].range.start), off_of(&src, edits[0].range.end));
        check(x.is_some() && y.is_some() && x.unwrap() <= a && e <= y.unwrap(), "the edit covers the requested range");
        let out = apply(&src, &edits);
        check(out.is_some(), "the edit is applicable");
        let out = out.unwrap();
        note(&out);
        check(same_program(&src, &out, false), "range formatting changed, dropped or reordered a token or comment");
        let mut p = Parser::new(&out);
        p.parse();
        check(p.errors().is_empty(), "range-formatted document has syntax errors");
        reach("range formatted");
    } else { reach("no edit") }
    // engine self-test: one path per concrete input
    if param(4, 0) == 1 { concretize(a); concretize(e); }
}

// ------------------------------------------------------------------------------- P22
/// `exact`: neither comments nor blank lines inside groups (after them, lines of a header are left at the header's own level)
fn lines_ok(out: &str, o: &FormatOptions, exact: bool) {
    let b = out.as_bytes();
    let crlf = matches!(o.layout.line_break, LineBreak::Crlf);
    let nl: &[u8] = if crlf { b"\r\n" } else { b"\n" };
    check(b.ends_with(nl) && !(b.len() > nl.len() && b[..b.len() - nl.len()].ends_with(b"\n")), "a formatted document does not end with one line break");
    let (unit, ic) = if o.layout.use_tabs { (1, b'\t') } else { (o.layout.indent_width, b' ') };
    let toks = lex(out);
    let mut open: Vec<(usize, bool)> = vec![]; // indentation (in steps) of the line a group or a flat block was opened in
    let mut here = 0;
    for (i, t) in toks.iter().enumerate() {
        let text = &b[t.a..t.b];
        if t.k == K::Ws {
            let n = text.iter().filter(|c| **c == b'\n').count();
            if n == 0 { check(text == b" ", "tokens of a line are not separated by one space"); check(i + 1 < toks.len(), "white space at the end"); continue }
            if i + 1 == toks.len() { continue }
            check(n <= 2, "several blank lines in a row");
            let mut a = 0;
            for _ in 0..n { check(text[a..].starts_with(nl), "a line ends with white space, or not with the line break asked for"); a += nl.len() }
            let next = &toks[i + 1];
            let word = &out[next.a..next.b];
            let inner = open.last().copied();
            let arm = next.k == K::Word && matches!(word, "end" | "else") && inner.is_some_and(|x| x.1);
            let want = inner.map_or(0, |x| x.0 + if arm { 0 } else { 1 });
            check(text[a..].iter().all(|x| *x == ic), "a line is not indented by the characters asked for");
            let got = text.len() - a;
            check(got % unit == 0, "a line is not indented by whole steps");
            here = got / unit;
            if exact { check(here == want, "a line is not indented by its nesting") } else { check(here <= open.len() + 1, "a line is indented deeper than its nesting") }
            continue;
        }
        let head = toks[..i].iter().rev().find(|t| !t.trivia()).is_some_and(|t| t.k == K::L);
        match t.k {
            K::L => open.push((here, false)),
            K::R => { check(open.last().is_some_and(|x| !x.1), "groups do not match"); open.pop(); }
            K::Word => {
                let w = &out[t.a..t.b];
                if !head && matches!(w, "block" | "loop" | "if") { open.push((here, true)) }
                if !head && w == "end" && open.last().is_some_and(|x| x.1) { open.pop(); }
            }
            _ => {}
        }
    }
}
/// the layout is the one asked for and does not depend on the white space of the source. params: lo, hi, n, options
pub fn fmt_layout() {
    let f = plain_source(true);
    let toks = lex(&f);
    let g = pick(toks.len() + 1);
    let at = if g < toks.len() { toks[g].a } else { f.len() };
    assume(g == 0 || toks[g - 1].k != K::Line);
    let mut b = f.as_bytes()[..at].to_vec();
    let n = param(2, 1) as usize;
    let comment = param(4, 0) == 1;
    if comment { trivia(&mut b, n) } else { for _ in 0..n { let c = byte(9, 32); assume(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r'); b.push(c) } }
    b.extend_from_slice(&f.as_bytes()[at..]);
    let s = unsafe { String::from_utf8_unchecked(b) };
    let o = options();
    note(&s);
    if comment { if let Some(y) = fmt(&s, &o) { note(&y); lines_ok(&y, &o, false); reach("with comment") } return }
    let (Some(x), Some(y)) = (fmt(&f, &o), fmt(&s, &o)) else { check(false, "well-formed"); return };
    note(&x);
    note(&y);
    let plain = !lex(&f).iter().any(|t| matches!(t.k, K::Line | K::Block));
    // blank lines are kept (one of several); anything else is not
    let blanks = |s: &str| lex(s).iter().any(|t| t.k == K::Ws && s[t.a..t.b].bytes().filter(|c| *c == b'\n').count() > 1);
    let blank = blanks(&s);
    lines_ok(&y, &o, plain && !blanks(&s));
    // at a comment and between modules line breaks are kept, too
    let near = |k: usize| toks.get(k).is_some_and(|t| matches!(t.k, K::Line | K::Block));
    let depth = toks[..g].iter().fold(0i32, |d, t| d + (t.k == K::L) as i32 - (t.k == K::R) as i32);
    let kept = depth == 0 || near(g) || near(g + 1) || g > 0 && near(g - 1) || g > 1 && near(g - 2);
    if !blank && !kept { check(x == y, "the layout depends on the white space of the source"); reach("same layout") } else { reach("blank line") }
}

/// the edit of a formatting request replaces the whole document by its formatted text, with the options of the request
pub fn fmt_service() {
    let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(FIELDS.len() + BIG.len()));
    let i = lo + pick(hi - lo);
    let mut src = if i < FIELDS.len() { field(i) } else { BIG[i - FIELDS.len()].to_string() };
    let (before, after) = (pick(3), pick(4));
    src = format!("{}{src}{}", ["", "\n", " ;;a\n"][before], ["", "\n", "\n\n(;b;)", " (module)\n"][after]);
    let mut s = service();
    s.commit(uri(), src.clone());
    note(&src);
    let (tab, spaces) = (pick(5) as u32, flag());
    let mut o = FormatOptions::default();
    o.layout.indent_width = tab.max(1) as usize;
    o.layout.use_tabs = !spaces;
    let p = DocumentFormattingParams { text_document: doc(), options: FormattingOptions { tab_size: tab, insert_spaces: spaces, ..Default::default() }, work_done_progress_params: Default::default() };
    let Some(edits) = s.formatting(p) else { check(false, "a document is not formatted"); return };
    let Some(out) = apply(&src, &edits) else { check(false, "the edit is applicable"); return };
    note(&out);
    if i != V128_FIELD { check(Some(&out) == fmt(&src, &o).as_ref(), "the document is not formatted with the options of the request") }
    reach("formatted");
}
