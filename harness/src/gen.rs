//! Well-formed module fields, generated along the grammar: every choice of the grammar is a choice of the path, names,
//! digits and the white space at one place are symbolic.
use crate::sym::{assume, byte};

pub struct Gen { pub b: Vec<u8>, names: usize, more: usize }
impl Gen {
    /// the first alternative, or (as often as is left) any other
    fn pick(&mut self, n: usize) -> usize {
        if self.more == 0 { return 0 }
        let c = crate::sym::pick(n);
        if c > 0 { self.more -= 1 }
        c
    }
    fn flag(&mut self) -> bool { self.pick(2) == 1 }
    fn s(&mut self, t: &str) {
        if let Some(l) = self.b.last() { if *l != b'(' && t != ")" { self.b.push(b' ') } }
        self.b.extend_from_slice(t.as_bytes());
    }
    fn open(&mut self, t: &str) { self.s("("); self.s(t) }
    fn close(&mut self) { self.s(")") }
    /// `$` and a letter (the first ones are symbolic)
    fn name(&mut self) {
        self.s("$");
        let c = if self.names < 2 { byte(b'a', b'z') } else { b'x' };
        self.names += 1;
        self.b.push(c);
    }
    fn ident(&mut self) { if self.flag() { self.name() } }
    fn num(&mut self) {
        self.s("");
        let c = if self.names < 2 { byte(b'0', b'9') } else { b'0' };
        self.names += 1;
        self.b.push(c);
    }
    fn index(&mut self) { if self.flag() { self.name() } else { self.num() } }
    fn val_type(&mut self) { let t = ["i32", "v128", "funcref"][self.pick(3)]; self.s(t) }
    fn import(&mut self) { self.open("import"); self.s("\"m\""); self.s("\"n\""); self.close() }
    /// is there an import
    fn inline(&mut self, exports: usize) -> bool {
        for _ in 0..self.pick(exports + 1) { self.open("export"); self.s("\"e\""); self.close() }
        let i = self.flag();
        if i { self.import() }
        i
    }
    fn group(&mut self, kw: &str, named: bool) {
        self.open(kw);
        if named && self.flag() { self.name(); self.val_type() } else { for _ in 0..self.pick(3) { self.s("i64") } }
        self.close();
    }
    fn type_use(&mut self, n: usize) {
        if self.flag() { self.open("type"); self.index(); self.close() }
        for _ in 0..self.pick(n + 1) { self.group("param", true) }
        for _ in 0..self.pick(n + 1) { self.group("result", false) }
    }
    fn small_type_use(&mut self) {
        match self.pick(6) {
            0 => {}
            1 => { self.open("type"); self.num(); self.close() }
            2 => { self.open("result"); self.s("i32"); self.close() }
            3 => { self.open("result"); self.close(); self.open("result"); self.s("i32"); self.close() }
            4 => { self.open("param"); self.s("i32"); self.close() }
            _ => { self.open("type"); self.num(); self.close(); self.open("param"); self.close(); self.open("result"); self.s("f32"); self.s("f64"); self.close() }
        }
    }
    fn limits(&mut self) { self.num(); if self.flag() { self.num(); if self.flag() { self.s("shared") } } }
    fn global_type(&mut self) { if self.flag() { self.open("mut"); self.val_type(); self.close() } else { self.val_type() } }
    fn instrs(&mut self, n: usize, depth: usize) { for _ in 0..[1, 0, 2][self.pick(n + 1)] { self.instr(depth) } }
    /// a name and what belongs to it
    fn plain(&mut self, depth: usize) {
        match self.pick(if depth > 0 { 8 } else { 3 }) {
            0 => self.s("nop"),
            1 => { self.s("i32.const"); self.num() }
            2 => { self.s("local.get"); self.name() }
            3 => { self.s("f64.const"); self.s("-0x1.8p-1") }
            4 => { self.s("br_table"); self.num(); self.name() }
            5 => { self.s("i32.load8_s"); self.s("offset=4"); if self.flag() { self.s("align=1") } }
            6 => { self.s("ref.null"); self.s("extern") }
            _ => { self.s("call_indirect"); self.ident(); self.open("type"); self.num(); self.close(); if self.flag() { self.open("param"); self.s("i32"); self.close(); self.open("result"); self.close() } }
        }
    }
    fn instr(&mut self, depth: usize) {
        let kind = self.pick(if depth > 0 { 6 } else { 2 });
        match kind {
            0 => self.plain(depth),
            1 => { self.s("("); self.plain(depth); if depth > 0 { for _ in 0..self.pick(3) { self.folded(depth - 1) } } self.close() }
            2 => { // folded block
                let kw = ["block", "loop"][self.pick(2)];
                self.open(kw); self.ident(); self.small_type_use(); self.instrs(2, depth - 1); self.close();
            }
            3 => {
                let kw = ["block", "loop"][self.pick(2)];
                self.s(kw);
                let l = self.flag();
                if l { self.s("$l") }
                self.small_type_use(); self.instrs(2, depth - 1); self.s("end");
                if l && self.flag() { self.s("$l") }
            }
            4 => {
                self.open("if"); self.ident(); self.small_type_use();
                for _ in 0..self.pick(2) { self.folded(depth - 1) }
                self.open("then"); self.instrs(1, depth - 1); self.close();
                if self.flag() { self.open("else"); self.instrs(1, depth - 1); self.close() }
                self.close();
            }
            _ => {
                self.s("if");
                let l = self.flag();
                if l { self.s("$l") }
                self.small_type_use(); self.instrs(1, depth - 1);
                if self.flag() { self.s("else"); if l && self.flag() { self.s("$l") } self.instrs(1, depth - 1) }
                self.s("end");
                if l && self.flag() { self.s("$l") }
            }
        }
    }
    fn folded(&mut self, depth: usize) {
        self.s("(");
        self.plain(depth);
        if depth > 0 { for _ in 0..self.pick(2) { self.folded(depth - 1) } }
        self.close();
    }
    fn strings(&mut self) { for _ in 0..self.pick(3) { self.s("\"s\"") } }
    fn offset(&mut self) { if self.flag() { self.open("offset"); self.instrs(2, 0); self.close() } else { self.folded(0) } }
    fn elem_expr(&mut self) { if self.flag() { self.open("item"); self.instrs(2, 0); self.close() } else { self.folded(0) } }
    /// one field of a kind: 0 function header, 1 function body, 2 type, 3 import, 4 export and start, 5 data, 6 table, 7 memory, 8 global, 9 elem
    pub fn field(&mut self, kind: usize, depth: usize) {
        match kind {
            0 => {
                self.open("func"); self.ident();
                let imported = self.inline(2);
                self.type_use(2);
                if !imported { for _ in 0..self.pick(3) { self.group("local", true) } if self.flag() { self.s("nop") } }
            }
            1 => { self.open("func"); self.instrs(2, depth) }
            2 => { self.open("type"); self.ident(); self.open("func"); for _ in 0..self.pick(3) { self.group("param", true) } for _ in 0..self.pick(3) { self.group("result", false) } self.close() }
            3 => {
                self.open("import"); self.s("\"m\""); self.s("\"n\"");
                let k = self.pick(4);
                self.open(["func", "global", "memory", "table"][k]); self.ident();
                match k { 0 => self.type_use(1), 1 => self.global_type(), 2 => self.limits(), _ => { self.limits(); self.s("externref") } }
                self.close();
            }
            4 => if self.flag() { self.open("start"); self.index() } else {
                self.open("export"); self.s("\"e\"");
                let k = self.pick(4);
                self.open(["func", "global", "memory", "table"][k]); self.index(); self.close();
            },
            5 => {
                self.open("data"); self.ident();
                if self.flag() { if self.flag() { self.open("memory"); self.index(); self.close() } self.offset() }
                self.strings();
            }
            6 => {
                self.open("table"); self.ident();
                let imported = self.inline(2);
                if imported || self.flag() { self.limits(); self.s("funcref") } else {
                    self.s("funcref"); self.open("elem");
                    if self.flag() { for _ in 0..self.pick(3) { self.elem_expr() } } else { for _ in 0..self.pick(3) { self.index() } }
                    self.close();
                }
            }
            7 => {
                self.open("memory"); self.ident();
                let imported = self.inline(2);
                if imported || self.flag() { self.limits() } else { self.open("data"); self.strings(); self.close() }
            }
            8 => {
                self.open("global"); self.ident();
                let imported = self.inline(2);
                self.global_type();
                if !imported { self.instrs(2, 0) }
            }
            _ => {
                self.open("elem"); self.ident();
                let mut bare = false;
                match self.pick(3) {
                    0 => {}
                    1 => self.s("declare"),
                    _ => { let t = self.flag(); if t { self.open("table"); self.index(); self.close() } self.offset(); bare = !t }
                }
                if self.flag() { self.s("externref"); for _ in 0..self.pick(3) { self.elem_expr() } }
                else { if !(bare && self.flag()) { self.s("func") } for _ in 0..self.pick(3) { self.index() } }
            }
        }
        self.close();
    }
}
/// a module of one generated field of the kinds lo..hi, nested at most that deeply, with at most `more` choices other than
/// the first, and symbolic white space at one gap, or not
pub fn module(lo: usize, hi: usize, depth: usize, more: usize, gaps: bool, symbolic: bool) -> String {
    let mut g = Gen { b: Vec::with_capacity(200), names: if symbolic { 0 } else { 2 }, more };
    g.open("module");
    let kind = lo + crate::sym::pick(hi - lo);
    g.field(kind, depth);
    g.close();
    if gaps {
        // one of the spaces is any white space
        let at: Vec<usize> = (0..g.b.len()).filter(|&i| g.b[i] == b' ').collect();
        let c = byte(9, 32);
        assume(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r');
        let i = crate::sym::pick(at.len());
        g.b[at[i]] = c;
    }
    unsafe { String::from_utf8_unchecked(g.b) }
}
/// is the source to be generated (param 0: 100 and more), of the kinds given by params 0 and 1, depth and choices by params 8 and 9
pub fn on() -> bool { crate::sym::param(0, 0) >= 100 }
pub fn source() -> String {
    use crate::sym::param;
    module(param(0, 100) as usize - 100, param(1, 110) as usize - 100, param(8, 2) as usize, param(9, 3) as usize, false, false)
}
