//! An independent recogniser of the WebAssembly text format (the part of it which this tool supports), over the tokens of the
//! reference lexer.  `strict`: the text is well-formed beyond doubt; otherwise: the text may pass (instructions are only told
//! from other words by not being keywords of the format, immediates are left to the checker).  strict is a subset of !strict.
use crate::common::*;
use crate::h_parse::number;

pub struct G<'a> { s: &'a [u8], t: Vec<T>, i: usize, strict: bool, bad: bool }

/// words of the format which no instruction is called
const NOT_INSTR: [&[u8]; 6] = [b"end", b"else", b"then", b"block", b"loop", b"if"];
/// … nor these (the repository's snapshots pin that these pass as instructions where they are misplaced)
const MISPLACED: [&[u8]; 3] = [b"param", b"result", b"local"];

pub fn recognise(s: &str, strict: bool) -> bool {
    let all = lex(s);
    if strict {
        // tokens which are not separated (`"a""b"`) are left unspecified
        for p in all.windows(2) { if matches!(p[0].k, K::Word | K::Str) && matches!(p[1].k, K::Word | K::Str) { return false } }
        for t in &all { if t.k == K::Str && !plain_string(&s.as_bytes()[t.a + 1..t.b - 1]) { return false } }
        for t in &all { if t.k == K::Line || t.k == K::Block { if s.as_bytes()[t.a..t.b].contains(&b'\r') { return false } } }
    }
    for t in &all { if t.k == K::Bad { return false } }
    let t: Vec<T> = all.into_iter().filter(|t| !t.trivia()).collect();
    let mut g = G { s: s.as_bytes(), t, i: 0, strict, bad: false };
    while g.i < g.t.len() { if !g.module() || g.bad { return false } }
    true
}
fn plain_string(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        if b[i] < 0x20 || b[i] == 0x7f { return false }
        if b[i] != b'\\' { i += 1; continue }
        if i + 1 >= b.len() { return false }
        let c = b[i + 1];
        if c == b't' || c == b'n' || c == b'r' || c == b'"' || c == b'\'' || c == b'\\' { i += 2 }
        else if i + 2 < b.len() && c.is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() { i += 3 }
        else if i + 4 < b.len() && c == b'u' && b[i + 2] == b'{' && b[i + 3].is_ascii_hexdigit() {
            let mut k = i + 4;
            while k < b.len() && k < i + 7 && b[k].is_ascii_hexdigit() { k += 1 }
            if k < b.len() && b[k] == b'}' { i = k + 1 } else { return false }
        }
        else { return false }
    }
    true
}
impl<'a> G<'a> {
    fn k(&self) -> Option<K> { self.t.get(self.i).map(|t| t.k) }
    fn at(&self, i: usize) -> Option<&'a [u8]> { match self.t.get(i) { Some(t) if t.k == K::Word => Some(&self.s[t.a..t.b]), _ => None } }
    fn word(&self) -> Option<&'a [u8]> { self.at(self.i) }
    /// the word after an opening parenthesis
    fn head(&self) -> Option<&'a [u8]> { if self.k() == Some(K::L) { self.at(self.i + 1) } else { None } }
    fn l(&mut self) -> bool { if self.k() == Some(K::L) { self.i += 1; true } else { false } }
    fn r(&mut self) -> bool { if self.k() == Some(K::R) { self.i += 1; true } else { false } }
    fn kw(&mut self, w: &[u8]) -> bool { if self.word().is_some_and(|x| x == w) { self.i += 1; true } else { false } }
    /// `( w`
    fn open(&mut self, w: &[u8]) -> bool { if self.head().is_some_and(|x| x == w) { self.i += 2; true } else { false } }
    fn string(&mut self) -> bool { if self.k() == Some(K::Str) { self.i += 1; true } else { false } }
    fn ident(&mut self) -> bool { if self.word().is_some_and(|w| w[0] == b'$' && w.len() > 1) { self.i += 1; true } else { false } }
    fn num(&self, w: &[u8]) -> (bool, bool) {
        // (KF) several underscores in a row are let through
        if !self.strict && w.windows(2).any(|p| p == b"__") {
            let mut v: Vec<u8> = vec![];
            for &c in w { if c != b'_' || v.last() != Some(&b'_') { v.push(c) } }
            return number(&v)
        }
        number(w)
    }
    fn uint(&mut self) -> bool {
        let ok = self.word().is_some_and(|w| w[0].is_ascii_digit() && self.num(w).0);
        if ok { self.i += 1 }
        ok
    }
    fn index(&mut self) -> bool { self.ident() || self.uint() }
    fn ref_type(&mut self) -> bool { self.kw(b"funcref") || self.kw(b"externref") }
    fn val_type(&mut self) -> bool { self.kw(b"i32") || self.kw(b"i64") || self.kw(b"f32") || self.kw(b"f64") || self.kw(b"v128") || self.ref_type() }

    fn module(&mut self) -> bool {
        if !self.open(b"module") { return false }
        self.ident();
        while self.k() == Some(K::L) { if !self.field() { return false } }
        self.r()
    }
    fn field(&mut self) -> bool {
        let ok = if self.open(b"func") {
            self.ident();
            let Some(imported) = self.inline() else { return false };
            if !self.type_use() { return false }
            let at = self.i;
            while self.head().is_some_and(|w| w == b"local") { if !self.named_types(b"local") { return false } }
            self.instrs() && !(self.strict && imported && self.i != at)
        } else if self.open(b"type") { self.ident(); self.open(b"func") && self.params_results() && self.r() }
        else if self.open(b"import") {
            if !(self.string() && self.string()) { return false }
            if self.open(b"func") { self.ident(); self.type_use() && self.r() }
            else if self.open(b"global") { self.ident(); self.global_type() && self.r() }
            else if self.open(b"memory") { self.ident(); self.limits() && self.r() }
            else if self.open(b"table") { self.ident(); self.limits() && self.ref_type() && self.r() }
            else { false }
        } else if self.open(b"export") {
            self.string() && (self.open(b"func") || self.open(b"table") || self.open(b"memory") || self.open(b"global")) && self.index() && self.r()
        } else if self.open(b"start") { self.index() }
        else if self.open(b"data") {
            self.ident();
            let mut m = false;
            if self.open(b"memory") { m = true; if !(self.index() && self.r()) { return false } }
            if self.k() == Some(K::L) { if !self.offset() { return false } } else if m && self.strict { return false }
            while self.string() {}
            true
        } else if self.open(b"table") {
            self.ident();
            let Some(imported) = self.inline() else { return false };
            if self.ref_type() {
                if imported && self.strict { return false }
                if !self.open(b"elem") { return false }
                if self.k() == Some(K::L) { while self.k() == Some(K::L) { if !self.elem_expr() { return false } } } else { while self.index() {} }
                self.r()
            } else { self.limits() && self.ref_type() }
        } else if self.open(b"memory") {
            self.ident();
            let Some(imported) = self.inline() else { return false };
            if self.open(b"data") { while self.string() {} self.r() && !(imported && self.strict) } else { self.limits() }
        } else if self.open(b"global") {
            self.ident();
            let Some(imported) = self.inline() else { return false };
            if !self.global_type() { return false }
            let at = self.i;
            self.instrs() && !(self.strict && imported && self.i != at)
        } else if self.open(b"elem") {
            self.ident();
            if self.kw(b"declare") { self.elem_list() }
            else if self.word().is_some() { !(self.strict && self.word().is_some_and(|w| w[0].is_ascii_digit() || w[0] == b'$')) && self.elem_list() }
            else {
                let mut t = false;
                if self.open(b"table") { t = true; if !(self.index() && self.r()) { return false } }
                if !self.offset() { return false }
                if t && self.strict && self.word().is_some_and(|w| w[0].is_ascii_digit() || w[0] == b'$') { return false }
                self.k() == Some(K::R) || self.elem_list()
            }
        } else { false };
        ok && self.r()
    }
    /// exports, then an import; Some(is there an import)
    fn inline(&mut self) -> Option<bool> {
        let mut imported = false;
        loop {
            if self.open(b"export") {
                if imported && self.strict { return None }
                if !(self.string() && self.r()) { return None }
            } else if self.open(b"import") {
                if imported && self.strict { return None }
                if !(self.string() && self.string() && self.r()) { return None }
                imported = true;
            } else { return Some(imported) }
        }
    }
    fn elem_list(&mut self) -> bool {
        if self.ref_type() { while self.k() == Some(K::L) { if !self.elem_expr() { return false } } return true }
        if !self.kw(b"func") && !self.index() { return false }
        while self.index() {}
        true
    }
    fn elem_expr(&mut self) -> bool {
        if self.open(b"item") { return self.instrs() && self.r() }
        self.folded()
    }
    fn offset(&mut self) -> bool {
        if self.open(b"offset") { return self.instrs() && self.r() }
        self.folded()
    }
    fn global_type(&mut self) -> bool {
        if self.open(b"mut") { return self.val_type() && self.r() }
        self.val_type()
    }
    fn limits(&mut self) -> bool {
        if !self.uint() { return false }
        let max = self.uint();
        if self.kw(b"shared") || self.kw(b"unshared") { return max || !self.strict }
        true
    }
    /// `(w $x t)` or `(w t*)`
    fn named_types(&mut self, w: &[u8]) -> bool {
        if !self.open(w) { return false }
        if w != b"result" && self.ident() { return self.val_type() && self.r() }
        while self.val_type() {}
        self.r()
    }
    fn params_results(&mut self) -> bool {
        while self.head().is_some_and(|w| w == b"param") { if !self.named_types(b"param") { return false } }
        while self.head().is_some_and(|w| w == b"result") { if !self.named_types(b"result") { return false } }
        true
    }
    fn type_use(&mut self) -> bool {
        if self.open(b"type") { if !(self.index() && self.r()) { return false } }
        self.params_results()
    }

    // ------------------------------------------------------------ instructions
    /// a word an instruction may be called
    fn name(&self, w: &[u8]) -> bool {
        if !w[0].is_ascii_lowercase() { return false }
        if self.strict && !w.iter().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || *c == b'.' || *c == b'_') { return false }
        !(self.strict && MISPLACED.iter().any(|k| *k == w)) && !NOT_INSTR.iter().any(|k| *k == w)
    }
    /// as many instructions as there are, up to something that cannot start one
    fn instrs(&mut self) -> bool {
        loop {
            match self.k() {
                Some(K::L) => {
                    if self.head().is_some_and(|w| w == b"then" || w == b"else") { return true }
                    if !self.folded() { return false }
                }
                Some(K::Word) => {
                    let w = self.word().unwrap();
                    if w == b"end" || w == b"else" { return true }
                    if !self.flat() { return false }
                }
                _ => return true,
            }
        }
    }
    fn flat(&mut self) -> bool {
        let Some(w) = self.word() else { return false };
        if w == b"block" || w == b"loop" {
            self.i += 1;
            let label = self.label();
            return self.type_use() && self.instrs() && self.kw(b"end") && self.end_label(label)
        }
        if w == b"if" {
            self.i += 1;
            let label = self.label();
            if !(self.type_use() && self.instrs()) { return false }
            if self.kw(b"else") && !(self.end_label(label) && self.instrs()) { return false }
            return self.kw(b"end") && self.end_label(label)
        }
        if !self.name(w) { return false }
        self.i += 1;
        self.immediates();
        true
    }
    fn label(&mut self) -> Option<&'a [u8]> { let w = self.word(); if self.ident() { w } else { None } }
    fn end_label(&mut self, label: Option<&[u8]>) -> bool {
        let w = self.word();
        if !self.ident() { return true }
        !self.strict || w == label
    }
    fn immediate(&mut self) -> bool {
        let Some(w) = self.word() else {
            return if self.open(b"type") { self.i -= 2; let ok = self.type_use(); if !ok { self.bad = true } ok } else { !self.strict && self.string() }
        };
        let (int, float) = self.num(w);
        let mem = |p: &[u8]| w.len() > p.len() && &w[..p.len()] == p && w[p.len()].is_ascii_digit() && self.num(&w[p.len()..]).0;
        if int || float || (w[0] == b'$' && w.len() > 1) || w == b"func" || w == b"extern" || mem(b"offset=") || mem(b"align=") { self.i += 1; return true }
        false
    }
    fn immediates(&mut self) { while self.immediate() {} }
    /// `( instruction )`
    fn folded(&mut self) -> bool {
        let Some(w) = self.head() else { return false };
        if w == b"block" || w == b"loop" {
            self.i += 2;
            self.ident();
            return self.type_use() && self.instrs() && self.r()
        }
        if w == b"if" {
            self.i += 2;
            self.ident();
            if !self.type_use() { return false }
            if self.strict { while self.k() == Some(K::L) && !self.head().is_some_and(|w| w == b"then") { if !self.folded() { return false } } }
            else if !self.instrs() { return false }
            if !(self.open(b"then") && self.instrs() && self.r()) { return false }
            if self.open(b"else") && !(self.instrs() && self.r()) { return false }
            return self.r()
        }
        if !self.name(w) { return false }
        self.i += 2;
        self.immediates();
        while self.k() == Some(K::L) {
            if !self.folded() { return false }
            if !self.strict { self.immediates() }
        }
        self.r()
    }
}
