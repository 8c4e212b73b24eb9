//! P20: completion offers exactly what may stand at the cursor
use crate::common::*;
use crate::h_names::*;
use crate::sym::*;
use lsp_types::*;

fn complete_at(s: &wat_service::LanguageService, p: Position) -> Option<Vec<CompletionItem>> {
    let r = s.completion(CompletionParams { text_document_position: tdpp(p), work_done_progress_params: Default::default(), partial_result_params: Default::default(), context: None });
    match r { None => None, Some(CompletionResponse::Array(v)) => Some(v), _ => { check(false, "a list"); None } }
}
/// at a reference which is there (cursor anywhere on it), not there yet, or just begun with `$`
pub fn complete_ref() {
    let d = doc_of();
    let k = pick(d.refs.len());
    let r = &d.refs[k];
    let mode = pick(3);
    let (a, b) = r.span;
    let mut src = d.src.clone();
    let (pos, dollar) = match mode {
        0 => {
            let first = flag(); // at the start of the reference nothing is typed yet
            let c = if first { a as u32 } else { u32_in(a as u32 + 1, b as u32) };
            (c, !first && r.num.is_none())
        }
        1 => { assume(d.src.as_bytes()[r.word.0 - 1] == b'('); src.replace_range(a..b, ""); (a as u32, false) }
        _ => { assume(r.num.is_none()); src.replace_range(a..b, "$"); (a as u32 + 1, true) }
    };
    note(&src);
    let mut s = service();
    s.commit(uri(), src);
    let got = complete_at(&s, Position::new(0, pos)).unwrap_or_default();
    // what the reference may denote
    let mut want: Vec<(String, usize)> = vec![];
    let mut add = |j: usize, n: u32| {
        let x = &d.defs[j];
        match x.name { Some(t) => want.push((text(&d, t).to_string(), j)), None => if !dollar { want.push((n.to_string(), j)) } }
    };
    if r.k == N::Label { for (n, &j) in r.labels.iter().rev().enumerate() { add(j, n as u32) } }
    else { for (j, x) in d.defs.iter().enumerate() { if x.k == r.k && x.scope == r.scope { add(j, if d.shared { x.shared } else { x.num }) } } }
    for (w, _) in &want { check(got.iter().any(|g| g.label == *w), "something the reference may denote is not offered") }
    for g in &got {
        // keywords, instructions and memory arguments may be offered besides (they are not references)
        if !g.label.starts_with('$') && !g.label.as_bytes()[0].is_ascii_digit() { continue }
        let j = want.iter().find(|(w, _)| *w == g.label);
        check(j.is_some(), "something the reference cannot denote is offered");
        if dollar { check(g.insert_text.as_deref() == Some(&g.label[1..]), "the text inserted after the typed `$`"); }
        else { check(g.insert_text.as_deref().is_none_or(|t| t == g.label), "the text inserted is the name"); }
        if r.k == N::Local || r.k == N::Global {
            let desc = g.label_details.as_ref().and_then(|l| l.description.as_deref());
            check(desc.is_some_and(|t| want.iter().any(|(w, j)| *w == g.label && { let y = text(&d, d.defs[*j].ty); t == y })), "the type shown with an offered name");
        }
    }
    check(got.iter().filter(|g| g.label.starts_with('$') || g.label.as_bytes()[0].is_ascii_digit()).count() == want.len(), "everything is offered once");
    reach(if want.is_empty() { "nothing" } else { "offered" });
}
/// where a type is being typed (0 or more characters of it), exactly the types that may stand there are offered. params: lo, hi
pub fn complete_type() {
    use crate::corpus::*;
    let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(FIELDS.len()));
    let f = field(lo + pick(hi - lo));
    const TYPES: [&str; 7] = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];
    let toks: Vec<T> = lex(&f).into_iter().filter(|t| t.k == K::Word && TYPES.contains(&&f[t.a..t.b])).collect();
    assume(!toks.is_empty());
    let t = toks[pick(toks.len())];
    let n = pick(t.b - t.a);
    assume(&f[t.a..t.a + n] != "func"); // a keyword
    let mut b = f.as_bytes()[..t.a].to_vec();
    crate::h_parse::trivia(&mut b, 1);
    b.extend_from_slice(&f.as_bytes()[t.a..t.a + n]);
    let at = b.len();
    b.extend_from_slice(&f.as_bytes()[t.b..]);
    let src = unsafe { String::from_utf8_unchecked(b) };
    note(&src);
    let pos = pos_of(&src, at);
    let mut s = service();
    s.commit(uri(), src);
    let got = complete_at(&s, pos).unwrap_or_default();
    // tables and element segments take references only
    let refs = &f[t.a..t.b] == "funcref" && (f.contains("(table") || f.contains("(elem")) || &f[t.a..t.b] == "externref" && (f.contains("(table") || f.contains("(elem"));
    for ty in TYPES {
        let offered = got.iter().any(|g| g.label == ty);
        if !refs || ty.ends_with("ref") { check(offered, "a type is not offered") } else { check(!offered, "a type that cannot stand here is offered") }
    }
    reach(if refs { "reference" } else { "value" });
}

/// where a keyword or the name of an instruction is being typed (0 or more letters of it), it is among what is offered. params: lo, hi, trivia
pub fn complete_word() {
    use crate::corpus::*;
    let (lo, hi) = (param(0, 0) as usize, (param(1, 999) as usize).min(FIELDS.len()));
    let f = field(lo + pick(hi - lo));
    let toks = offered(&f);
    if toks.is_empty() { reach("none"); return; }
    let (t, min) = toks[pick(toks.len())];
    let word = &f[t.a..t.b];
    let n = min + pick(t.b - t.a - min);
    let mut b = f.as_bytes()[..t.a].to_vec();
    if param(2, 0) > 0 { crate::h_parse::trivia(&mut b, 1); }
    b.extend_from_slice(&f.as_bytes()[t.a..t.a + n]);
    let at = b.len();
    b.extend_from_slice(&f.as_bytes()[t.b..]);
    let src = unsafe { String::from_utf8_unchecked(b) };
    note(&src); note(word);
    let pos = pos_of(&src, at);
    let mut s = service();
    s.commit(uri(), src);
    let got = complete_at(&s, pos).unwrap_or_default();
    check(got.iter().filter(|g| g.label == word).count() > 0, "what may stand here is not offered");
    check(got.iter().filter(|g| g.label == word).count() < 2, "offered twice");
    reach("word");
}
/// The words that completion offers, with the least number of letters typed.
fn offered(f: &str) -> Vec<(crate::common::T, usize)> {
    use crate::corpus::*;
    let mut out = Vec::new();
    let mut heads: Vec<&str> = Vec::new();
    let mut open = false;
    let mut body = false;
    for t in lex(f) {
        let w = &f[t.a..t.b];
        match w {
            "(" => { if open { heads.push(""); } open = true; }
            ")" => { if open { open = false; } else { heads.pop(); } }
            _ if t.k == K::Word => {
                let parent = heads.last().copied().unwrap_or("");
                let in_func = heads.contains(&"func") && heads.first() == Some(&"module") && heads.get(1) == Some(&"func");
                if open {
                    let ok: &[&str] = match parent {
                        "" if heads.is_empty() => &["module"],
                        "module" => &["func", "table", "memory", "global", "type", "import", "export", "start", "elem", "data"],
                        "func" => &["export", "import", "type", "param", "result", "local"],
                        "import" | "export" => &["func", "table", "memory", "global"],
                        "global" => &["mut", "import", "export"],
                        "table" => &["import", "export", "elem"],
                        "memory" => &["import", "export", "data"],
                        "data" => &["memory", "offset"],
                        "elem" => &["table", "offset"],
                        "type" => &["func"],
                        _ => &[],
                    };
                    if ok.contains(&w) && !body { out.push((t, matches!(w, "param" | "result" | "local") as usize)); }
                }
                if in_func && crate::opcodes::OPCODES.iter().any(|o| o.0 == w) && !w.starts_with("ref.") { out.push((t, 1)); }
                if open {
                    heads.push(w);
                    open = false;
                    if heads.len() == 2 { body = false; }
                    if w == "type" && heads.contains(&"import") { body = true; }
                } else if matches!(w, "block" | "loop" | "if") { body = true; }
            }
            _ => {}
        }
    }
    out
}
