//! P18 code actions keep the program, P19 folding and selection ranges follow the structure of the text
use crate::common::*;
use crate::corpus::*;
use crate::sym::*;
use lsp_types::*;
use wat_service::LanguageService;

fn code_actions(s: &LanguageService, r: Range, only: Option<Vec<CodeActionKind>>) -> Vec<CodeAction> {
    s.code_action(CodeActionParams { text_document: doc(), range: r, context: CodeActionContext { only, ..Default::default() }, work_done_progress_params: Default::default(), partial_result_params: Default::default() })
        .unwrap_or_default().into_iter().filter_map(|a| match a { CodeActionOrCommand::CodeAction(a) => Some(a), _ => None }).collect()
}
/// the text after an action
fn acted(src: &str, a: &CodeAction) -> Option<String> {
    let c = a.edit.as_ref()?.changes.as_ref()?;
    if c.len() != 1 { return None }
    apply(src, c.get(&uri())?)
}
/// words and parentheses, and comments, of a text
fn pieces(s: &str) -> (Vec<&str>, Vec<&str>) {
    let (mut w, mut c) = (vec![], vec![]);
    for t in lex(s) { match t.k { K::Ws => {} K::Line | K::Block => c.push(&s[t.a..t.b]), _ => w.push(&s[t.a..t.b]) } }
    (w, c)
}
fn same_pieces(got: &str, want: &(Vec<&str>, Vec<&str>)) -> bool {
    let g = pieces(got);
    g.0.len() == want.0.len() && g.1.len() == want.1.len() && g.0.iter().zip(&want.0).all(|(a, b)| a == b) && g.1.iter().zip(&want.1).all(|(a, b)| a == b)
}

// ------------------------------------------------------------------------------- split and join
const AROUND: &[(&str, &str, bool)] = &[
    ("(module (func $f ", " nop))", true),
    ("(module (type $t (func ", ")))", false),
    ("(module (import \"a\" \"b\" (func $f ", ")))", false),
    ("(module (func (block $l ", " (nop))))", false),
    ("(module (func loop ", " nop end))", false),
    ("(module (func (call_indirect (type 0) ", " (i32.const 0))))", false),
];
struct Item { open: usize, end: usize, kw: &'static str, named: bool, types: usize }
/// the header of a function, with one gap holding a comment or line break. params: items, most types of an item, with trivia
fn header() -> (String, Vec<Item>) {
    let (pre, post, locals) = AROUND[pick(AROUND.len())];
    let (n, most, tr) = (param(0, 2) as usize, param(1, 2) as usize, param(2, 0) == 1);
    let mut b = Vec::with_capacity(160);
    b.extend_from_slice(pre.as_bytes());
    let shape: Vec<(&'static str, bool, usize)> = {
        let mut v = vec![];
        let mut rank = 0;
        for _ in 0..n {
            let k = rank + pick(if locals { 3 } else { 2 } - rank);
            rank = k;
            let named = k != 1 && flag();
            v.push((["param", "result", "local"][k], named, if named { 1 } else { pick(most + 1) }));
        }
        v
    };
    // tokens of an item: ( kw [name] types ) ; a gap follows each
    let gaps: usize = shape.iter().map(|s| 3 + s.1 as usize + s.2).sum();
    let gap = if tr { pick(gaps) } else { gaps };
    let kind = if tr { pick(3) } else { 0 };
    let mut g = 0;
    let mut space = |b: &mut Vec<u8>, need: bool| {
        if g == gap {
            match kind { 0 => b.extend_from_slice(b"\n "), 1 => { b.extend_from_slice(b" (;"); b.push(byte(b'a', b'b')); b.extend_from_slice(b";)") } _ => { b.extend_from_slice(b" ;;"); b.push(byte(b'a', b'b')); b.push(b'\n') } }
        } else if need { b.push(b' ') }
        g += 1;
    };
    let mut nth = 0;
    let mut items = vec![];
    for (kw, named, types) in shape {
        let open = b.len();
        b.push(b'(');
        space(&mut b, false);
        b.extend_from_slice(kw.as_bytes());
        space(&mut b, named || types > 0);
        if named { b.extend_from_slice(b"$"); b.push(byte(b'a', b'b')); space(&mut b, true) }
        for i in 0..types {
            b.extend_from_slice([b"i32".as_slice(), b"f64", b"externref", b"i64", b"v128", b"f32"][nth % 6]);
            nth += 1;
            space(&mut b, i + 1 < types);
        }
        b.push(b')');
        items.push(Item { open, end: b.len(), kw, named, types });
        space(&mut b, true);
    }
    b.extend_from_slice(post.as_bytes());
    (unsafe { String::from_utf8_unchecked(b) }, items)
}
/// the pieces of the text when the items `from..to` are split up into one per type, or joined into one
fn expected<'a>(src: &'a str, items: &[Item], from: usize, to: usize, join: bool) -> (Vec<&'a str>, Vec<&'a str>) {
    let (mut w, mut c) = (vec![], vec![]);
    let mut seen = 0; // types of the item so far
    for t in lex(src) {
        let s = &src[t.a..t.b];
        match t.k { K::Ws => continue, K::Line | K::Block => { c.push(s); continue } _ => {} }
        let Some(i) = (from..to).find(|&i| items[i].open <= t.a && t.b <= items[i].end) else { w.push(s); continue };
        if t.a == items[i].open { seen = 0 }
        if join {
            let drop = t.k == K::L && i > from || t.k == K::R && i + 1 < to || t.k == K::Word && i > from && s == items[i].kw;
            if !drop { w.push(s) }
        } else {
            let ty = t.k == K::Word && !s.starts_with('$') && s != items[i].kw;
            if ty { seen += 1; if seen > 1 { w.push(")"); w.push("("); w.push(items[i].kw) } }
            w.push(s)
        }
    }
    (w, c)
}
/// splitting and joining parameters, results and locals, from any selection
pub fn split_join() {
    let (src, items) = header();
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let (lo, hi) = items.iter().fold((src.len(), 0), |r, i| (r.0.min(i.open - 1), r.1.max(i.end + 1)));
    // one end symbolic, the other at (or just inside) any word
    let ends: Vec<usize> = { let mut v = vec![]; for t in lex(&src) { for o in [t.a, t.a + 1] { if lo <= o && o <= hi && !v.contains(&o) { v.push(o) } } } v };
    let exact = param(3, 0) == 1;
    let e = ends[if exact { 0 } else { pick(ends.len()) }];
    let (sp, so) = if exact { (Position::new(0, 0), 0) } else if flag() { sym_pos_in(&src, lo, e) } else { sym_pos_in(&src, e, hi) };
    let ((p, a), (q, b)) = if exact {
        let v: Vec<usize> = items.iter().flat_map(|i| [i.open, i.end]).collect();
        let (x, y) = (v[pick(v.len())], v[pick(v.len())]);
        assume(x <= y);
        ((pos_of(&src, x), x), (pos_of(&src, y), y))
    } else if so <= e { ((sp, so), (pos_of(&src, e), e)) } else { ((pos_of(&src, e), e), (sp, so)) };
    assume(a <= b);
    let acts = code_actions(&s, Range::new(p, q), None);
    let after: Vec<Option<String>> = acts.iter().map(|x| acted(&src, x)).collect();
    let splits: Vec<usize> = (0..items.len()).filter(|&i| items[i].types > 1 && items[i].open <= a && b <= items[i].end).collect();
    // runs of unnamed parameters inside the selection
    let mut runs: Vec<(usize, usize)> = vec![];
    let inside = |i: usize| items[i].kw == "param" && !items[i].named && a <= items[i].open && items[i].end <= b;
    let mut i = 0;
    while i < items.len() {
        if !inside(i) { i += 1; continue }
        let from = i;
        while i < items.len() && inside(i) { i += 1 }
        runs.push((from, i));
    }
    for t in &after {
        let Some(t) = t else { check(false, "edits of a code action do not apply"); return };
        let ok = splits.iter().any(|&i| same_pieces(t, &expected(&src, &items, i, i + 1, false))) || runs.iter().any(|&(f, u)| same_pieces(t, &expected(&src, &items, f, u, true)));
        check(ok, "a code action changes more than it says");
    }
    for &i in &splits {
        if items[i].open < a && b < items[i].end {
            check(after.iter().flatten().any(|t| same_pieces(t, &expected(&src, &items, i, i + 1, false))), "splitting is not offered");
            reach("split");
        }
    }
    let within = !items.is_empty() && items[0].open <= a && b <= items.iter().filter(|i| i.kw != "local").map(|i| i.end).max().unwrap_or(0);
    if within && a < b && runs.iter().any(|&(f, u)| (f..u).map(|i| items[i].types).sum::<usize>() > 1 && u - f > 1) {
        check(runs.iter().any(|&(f, u)| after.iter().flatten().any(|t| same_pieces(t, &expected(&src, &items, f, u, true)))), "joining is not offered");
        reach("join");
    }
    if acts.is_empty() { reach("none") }
}
/// only actions of the kinds the client asks for. params: as header
pub fn only_kinds() {
    let (src, items) = match pick(2) { 0 => header(), _ => ("(module (func (i32.load offset = 4 (i32.const 0))))".into(), vec![]) };
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let (a, b) = match items.first() { Some(i) => (i.open, items.last().map_or(0, |i| i.end)), None => (16, 16) };
    let r = range_of(&src, a, if flag() { a + 1 } else { b });
    let all = code_actions(&s, r, None);
    // kinds are hierarchical: `refactor` asks for `refactor.rewrite` too, and the empty kind for all
    for k in [CodeActionKind::QUICKFIX, CodeActionKind::REFACTOR_REWRITE, CodeActionKind::SOURCE, CodeActionKind::REFACTOR_EXTRACT, CodeActionKind::REFACTOR, CodeActionKind::EMPTY, CodeActionKind::new("refactor.re"), CodeActionKind::new("quickfix.x")] {
        let some = code_actions(&s, r, Some(vec![k.clone()]));
        let asked = |a: &CodeAction| a.kind.as_ref().is_some_and(|x| x == &k || k == CodeActionKind::EMPTY || x.as_str().starts_with(&format!("{}.", k.as_str())));
        let want: Vec<&CodeAction> = all.iter().filter(|a| asked(a)).collect();
        check(some.len() == want.len() && some.iter().all(|x| want.contains(&x)), "actions of kinds that were not asked for");
    }
    let both = code_actions(&s, r, Some(vec![CodeActionKind::REFACTOR_REWRITE, CodeActionKind::QUICKFIX]));
    check(both.len() == all.len(), "all kinds");
    reach(if all.is_empty() { "none" } else { "some" });
}

// ------------------------------------------------------------------------------- memory arguments
/// a memory argument written with spaces or comments around its '='. params: digits
pub fn mem_arg() {
    const AROUND: &[(&str, &str)] = &[("(module (func (i32.load ", " (i32.const 0))))"), ("(module (func (drop (i64.load8_u ", ")))) "), ("(module (func (i32.store ", "(i32.const 0)(i32.const 1))))")];
    let (pre, post) = AROUND[pick(AROUND.len())];
    let n = param(0, 1) as usize;
    let mut b = Vec::with_capacity(120);
    b.extend_from_slice(pre.as_bytes());
    let from = b.len();
    let mut marks: Vec<(usize, bool)> = vec![]; // gaps inside arguments: where, and whether they hold a comment or nothing (true: white space only)
    let two = flag();
    let extra = pick(3); // before, after: another number
    if extra == 1 { b.push(byte(b'0', b'9')); b.push(b' ') }
    for k in 0..1 + two as usize {
        if k > 0 { b.push(b' ') }
        b.extend_from_slice(if k == 0 { b"offset" } else { b"align" });
        for part in 0..2 {
            let at = b.len();
            match if k == 1 { 0 } else { pick(4) } { 0 => {} 1 => b.push(b' '), 2 => { b.push(b'\n'); b.push(b'\t') } _ => b.extend_from_slice(b"(;c;)") }
            if b.len() > at { marks.push((at, b[at] != b'(')) }
            if part == 0 { b.push(b'=') }
        }
        match if k == 1 { 0 } else { pick(3) } {
            0 => for _ in 0..n { b.push(byte(b'0', b'9')) },
            1 => { b.extend_from_slice(b"0x"); let c = byte(b'0', b'f'); assume(c <= b'9' || (c >= b'A' && c <= b'F') || c >= b'a'); b.push(c) }
            _ => { b.push(byte(b'0', b'9')); b.push(b'_'); b.push(byte(b'0', b'9')) }
        }
    }
    if extra == 2 { b.push(b' '); b.push(byte(b'0', b'9')) }
    let to = b.len();
    b.extend_from_slice(post.as_bytes());
    let src = unsafe { String::from_utf8_unchecked(b) };
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let p = u32_in(0, (to - from) as u32) as usize + from;
    let head = &src[..from];
    let line = |o: usize| { // the position of an offset between from and to
        match src[from..to].find('\n') { Some(k) if o > from + k => Position::new(1, (o - from - k - 1) as u32), _ => Position::new(0, (head.len() + o - from) as u32) }
    };
    let pos = line(p);
    let acts = code_actions(&s, Range::new(pos, pos), None);
    for x in &acts {
        let Some(t) = acted(&src, x) else { check(false, "edits of a code action do not apply"); return };
        // only white space inside memory arguments goes
        let mut want = Vec::with_capacity(src.len());
        let sb = src.as_bytes();
        let mut i = 0;
        while i < sb.len() {
            if marks.iter().any(|m| m.0 == i && m.1) { while sb[i] == b' ' || sb[i] == b'\n' || sb[i] == b'\t' { i += 1 } continue }
            want.push(sb[i]);
            i += 1;
        }
        let want = unsafe { String::from_utf8_unchecked(want) };
        check(t == want, "the fix of a memory argument changes something else, or does not fix it");
        reach("fixed");
    }
    let fixable = !marks.is_empty() && marks.iter().all(|m| m.1);
    if fixable && from < p && p < to { check(!acts.is_empty(), "no fix is offered") }
    if marks.is_empty() { check(acts.is_empty(), "a fix is offered where nothing is wrong"); reach("nothing wrong") }
}

// ------------------------------------------------------------------------------- folding, selection
pub fn any_source() -> String {
    if crate::gen::on() { return crate::gen::source() }
    let (lo, hi) = (param(0, 0) as usize, (param(1, 99) as usize).min(FIELDS.len()));
    let i = lo + pick(hi - lo + BIG.len());
    if i < hi { field(i) } else { BIG[i - hi].to_string() }
}
/// a corpus document with a line break or comment at any gap. params: lo, hi
fn broken() -> String {
    let f = any_source();
    let toks = lex(&f);
    let g = pick(toks.len() + 1);
    let at = if g < toks.len() { toks[g].a } else { f.len() };
    let mut b = f.as_bytes()[..at].to_vec();
    if g > 0 && toks[g - 1].k == K::Line { b.push(b'\n') }
    for _ in 0..param(2, 1) {
        match pick(3) {
            0 => { let c = byte(9, 32); assume(c == b' ' || c == b'\n' || c == b'\t'); b.push(c) }
            1 => { b.extend_from_slice(b" ;;"); let c = byte(32, 127); b.push(c); b.push(b'\n') }
            _ => { b.extend_from_slice(b"(;"); let c = byte(10, 59); assume(c == b'\n' || c == b' ' || c == b':'); b.push(c); b.extend_from_slice(b";)") }
        }
    }
    b.extend_from_slice(&f.as_bytes()[at..]);
    unsafe { String::from_utf8_unchecked(b) }
}
/// the spans of everything in parentheses and of every `block`, `loop`, `if` … `end`
fn groups(src: &str) -> Vec<(usize, usize)> {
    let (mut open, mut v): (Vec<(usize, bool)>, Vec<(usize, usize)>) = (vec![], vec![]);
    let t: Vec<T> = lex(src).into_iter().filter(|t| !t.trivia()).collect();
    for (i, x) in t.iter().enumerate() {
        let w = &src[x.a..x.b];
        match x.k {
            K::L => open.push((x.a, true)),
            K::R => if let Some(o) = open.pop() { if !(open.len() > 1 && t.iter().find(|w| w.a > o.0).is_some_and(|w| &src[w.a..w.b] == "type")) { v.push((o.0, x.b)) } },
            K::Word if matches!(w, "block" | "loop" | "if") && (i == 0 || t[i - 1].k != K::L) => open.push((x.a, false)),
            K::Word if w == "end" => {
                let e = match t.get(i + 1) { Some(n) if n.k == K::Word && src[n.a..].starts_with('$') => n.b, _ => x.b };
                if let Some(o) = open.pop() { v.push((o.0, e)) }
            }
            _ => {}
        }
    }
    v
}
fn has_break(src: &str, g: (usize, usize)) -> bool { src.as_bytes()[g.0..g.1].iter().any(|&c| c == b'\n') }
/// everything in parentheses, and every block, that spans several lines can be folded; nothing else can
pub fn folding() {
    let src = broken();
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let Some(fs) = s.folding_range(FoldingRangeParams { text_document: doc(), work_done_progress_params: Default::default(), partial_result_params: Default::default() }) else { check(false, "no folding ranges"); return };
    let gs = groups(&src);
    let mut n = 0;
    for &g in &gs {
        if !has_break(&src, g) { continue }
        n += 1;
        let r = range_of(&src, g.0, g.1);
        check(fs.iter().filter(|f| f.start_line == r.start.line && f.start_character == Some(r.start.character) && f.end_line == r.end.line && f.end_character == Some(r.end.character)).count() == 1, "a group of several lines cannot be folded");
        reach("folded");
    }
    // besides, parts that begin with a keyword (the arms of an `if`, the list of an element segment)
    let toks = lex(&src);
    let mut extra = 0;
    for f in &fs {
        check(f.start_line < f.end_line, "a folding range of one line");
        let at = |l: u32, c: Option<u32>| c.and_then(|c| off_of(&src, Position::new(l, c)));
        let (Some(a), Some(b)) = (at(f.start_line, f.start_character), at(f.end_line, f.end_character)) else { check(false, "a folding range outside of the text"); return };
        if gs.contains(&(a, b)) { continue }
        extra += 1;
        check(toks.iter().any(|t| t.a == a && (matches!(&src[t.a..t.b], "else" | "func") || t.k == K::L && toks.iter().find(|w| w.a > a && !w.trivia()).is_some_and(|w| &src[w.a..w.b] == "type"))) && toks.iter().any(|t| t.b == b), "a folding range that is none");
        check(gs.iter().all(|g| b <= g.0 || g.1 <= a || g.0 <= a && b <= g.1 || a <= g.0 && g.1 <= b), "a folding range crosses another");
    }
    check(fs.len() == n + extra, "a folding range given twice");
}
/// selections at two positions: each contains its position, starts from the word there and grows through every enclosing group to the whole text
pub fn selection() {
    let src = broken();
    note(&src);
    let mut s = service();
    s.commit(uri(), src.clone());
    let (p, off) = sym_pos(&src);
    let first = Position::new(0, u32_in(0, 2));
    let Some(r) = s.selection_range(SelectionRangeParams { text_document: doc(), positions: vec![first, p], work_done_progress_params: Default::default(), partial_result_params: Default::default() }) else { check(false, "no answer"); return };
    check(r.len() == 2, "one selection for each position");
    check(r[0].range.start <= first && first <= r[0].range.end, "a selection contains its position");
    let mut at = &r[1];
    check(at.range.start <= p && p <= at.range.end, "a selection contains its position");
    let mut chain = vec![at.range];
    while let Some(up) = &at.parent {
        check(up.range.start <= at.range.start && at.range.end <= up.range.end, "selections grow");
        chain.push(up.range);
        at = up;
    }
    let toks = lex(&src);
    if let Some(t) = toks.iter().find(|t| t.a < off && off < t.b) {
        check(chain[0] == range_of(&src, t.a, t.b), "the first selection is the word at the position");
        check(chain[chain.len() - 1] == range_of(&src, 0, src.len()), "the last selection is the whole text");
        for g in groups(&src) {
            if g.0 <= t.a && t.b <= g.1 { check(chain.contains(&range_of(&src, g.0, g.1)), "an enclosing group is not among the selections"); reach("group") }
        }
    }
}
