//! P23: the typed syntax tree gives every part of a well-formed text.
//! The typed nodes are walked along the tokens of the reference lexer, following the grammar of the text format.
use crate::common::*;
use crate::corpus::*;
use crate::h_parse::*;
use crate::sym::*;
use rowan::ast::{AstChildren, AstNode};
use wat_parser::Parser;
use wat_syntax::{ast::*, SyntaxNode, SyntaxToken, WatLanguage};

struct W<'a> { s: &'a [u8], t: Vec<T>, i: usize, ok: bool }

const KIND: &str = "a part of the text is not given, or as another kind";
const MORE: &str = "a part is given which the text does not have";

impl<'a> W<'a> {
    fn at(&self, i: usize) -> &'a [u8] { match self.t.get(i) { Some(t) => &self.s[t.a..t.b], None => b"" } }
    fn cur(&self) -> &'a [u8] { self.at(self.i) }
    fn k(&self, k: K) -> bool { self.t.get(self.i).is_some_and(|t| t.k == k) }
    /// the word after an opening parenthesis
    fn head(&self) -> &'a [u8] { if self.k(K::L) { self.at(self.i + 1) } else { b"" } }
    fn fail(&mut self, m: &'static str) { if self.ok { check(false, m); } self.ok = false }
    /// the token given is the next one of the text
    fn tok(&mut self, t: Option<SyntaxToken>) {
        let here = match (&t, self.t.get(self.i)) {
            (Some(t), Some(c)) => { let r = t.text_range(); usize::from(r.start()) == c.a && usize::from(r.end()) == c.b }
            _ => false,
        };
        if here { self.i += 1 } else { self.fail(KIND) }
    }
    fn none<X>(&mut self, t: Option<X>) { if t.is_some() { self.fail(MORE) } }
    fn opt(&mut self, there: bool, t: Option<SyntaxToken>) { if there { self.tok(t) } else { self.none(t) } }
    fn is_ident(&self) -> bool { self.k(K::Word) && self.cur()[0] == b'$' }
    fn is_uint(&self) -> bool { self.k(K::Word) && self.cur()[0].is_ascii_digit() }
    fn ident(&mut self, t: Option<SyntaxToken>) { let there = self.is_ident(); self.opt(there, t) }
    /// the node covers exactly the tokens from there to here (and trivia around them at most)
    fn span(&mut self, n: &SyntaxNode, from: usize) {
        if from == self.i || self.i > self.t.len() { return }
        let r = n.text_range();
        let (a, b) = (usize::from(r.start()), usize::from(r.end()));
        let lo = if from > 0 { self.t[from - 1].b } else { 0 };
        let hi = if self.i < self.t.len() { self.t[self.i].a } else { self.s.len() };
        if a < lo || a > self.t[from].a || b < self.t[self.i - 1].b || b > hi { self.fail("a part given does not cover its text") }
    }
    fn node<N: AstNode<Language = WatLanguage>>(&mut self, there: bool, n: Option<N>, f: impl FnOnce(&mut Self, &N)) {
        if !self.ok { return }
        match (there, n) {
            (true, Some(n)) => { let from = self.i; f(self, &n); if self.ok { self.span(n.syntax(), from) } }
            (false, None) => {}
            (true, None) => self.fail(KIND),
            (false, Some(_)) => self.fail(MORE),
        }
    }
    fn all<N: AstNode<Language = WatLanguage>>(&mut self, mut v: AstChildren<N>, there: impl Fn(&Self) -> bool, f: impl Fn(&mut Self, &N)) {
        while self.ok && there(self) { let n = v.next(); self.node(true, n, |w, n| f(w, n)); }
        if self.ok { let n = v.next(); self.none(n) }
    }

    fn root(&mut self, r: &Root) {
        self.all(r.modules(), |w| w.i < w.t.len(), Self::module);
    }
    fn module(&mut self, m: &Module) {
        self.tok(m.l_paren_token()); self.tok(m.keyword()); self.ident(m.ident_token());
        self.all(m.module_fields(), |w| w.k(K::L), Self::field);
        self.tok(m.r_paren_token());
    }
    fn field(&mut self, f: &ModuleField) {
        match (self.head(), f) {
            (b"func", ModuleField::Func(f)) => self.func(f),
            (b"type", ModuleField::Type(f)) => {
                self.tok(f.l_paren_token()); self.tok(f.keyword()); self.ident(f.ident_token());
                self.node(true, f.func_type(), |w, t| {
                    w.tok(t.l_paren_token()); w.tok(t.keyword()); w.params(t.params()); w.results(t.results()); w.tok(t.r_paren_token());
                });
                self.tok(f.r_paren_token());
            }
            (b"import", ModuleField::Import(f)) => {
                self.tok(f.l_paren_token()); self.tok(f.keyword());
                self.node(true, f.module_name(), |w, n| w.tok(n.string_token()));
                self.node(true, f.name(), |w, n| w.tok(n.string_token()));
                self.node(true, f.import_desc(), Self::import_desc);
                self.tok(f.r_paren_token());
            }
            (b"export", ModuleField::Export(f)) => {
                self.tok(f.l_paren_token()); self.tok(f.keyword());
                self.node(true, f.name(), |w, n| w.tok(n.string_token()));
                self.node(true, f.export_desc(), Self::export_desc);
                self.tok(f.r_paren_token());
            }
            (b"start", ModuleField::Start(f)) => {
                self.tok(f.l_paren_token()); self.tok(f.keyword());
                self.node(true, f.index(), Self::index);
                self.tok(f.r_paren_token());
            }
            (b"data", ModuleField::Data(f)) => {
                self.tok(f.l_paren_token()); self.tok(f.keyword()); self.ident(f.ident_token());
                let there = self.head() == b"memory";
                self.node(there, f.mem_use(), |w, u| { w.tok(u.l_paren_token()); w.tok(u.keyword()); w.node(true, u.index(), Self::index); w.tok(u.r_paren_token()) });
                let there = self.k(K::L);
                self.node(there, f.offset(), Self::offset);
                self.strings(f.string_tokens());
                self.tok(f.r_paren_token());
            }
            (b"table", ModuleField::Table(f)) => {
                self.tok(f.l_paren_token()); self.tok(f.keyword()); self.ident(f.ident_token());
                self.inline(f.export(), None, f.import());
                let limits = self.is_uint();
                self.node(limits, f.table_type(), Self::table_type);
                self.opt(!limits, f.ref_type());
                self.node(!limits, f.elem(), |w, e| {
                    w.tok(e.l_paren_token()); w.tok(e.keyword());
                    w.all(e.elem_exprs(), |w| w.k(K::L), Self::elem_expr);
                    w.all(e.indexes(), |w| w.k(K::Word), Self::index);
                    w.tok(e.r_paren_token());
                });
                self.tok(f.r_paren_token());
            }
            (b"memory", ModuleField::Memory(f)) => {
                self.tok(f.l_paren_token()); self.tok(f.keyword()); self.ident(f.ident_token());
                self.inline(f.export(), None, f.import());
                let limits = self.is_uint();
                self.node(limits, f.memory_type(), |w, t| w.node(true, t.limits(), Self::limits));
                self.node(!limits, f.data(), |w, d| { w.tok(d.l_paren_token()); w.tok(d.keyword()); w.strings(d.string_tokens()); w.tok(d.r_paren_token()) });
                self.tok(f.r_paren_token());
            }
            (b"global", ModuleField::Global(f)) => {
                self.tok(f.l_paren_token()); self.tok(f.keyword()); self.ident(f.ident_token());
                self.inline(f.export(), None, f.import());
                self.node(true, f.global_type(), Self::global_type);
                self.instrs(f.instrs());
                self.tok(f.r_paren_token());
            }
            (b"elem", ModuleField::Elem(f)) => {
                self.tok(f.l_paren_token()); self.tok(f.keyword()); self.ident(f.ident_token());
                let declare = self.cur() == b"declare";
                self.opt(declare, f.declare_keyword());
                let there = self.head() == b"table";
                self.node(there, f.table_use(), |w, u| { w.tok(u.l_paren_token()); w.tok(u.keyword()); w.node(true, u.index(), Self::index); w.tok(u.r_paren_token()) });
                let there = self.k(K::L);
                self.node(there, f.offset(), Self::offset);
                let there = self.k(K::Word);
                self.node(there, f.elem_list(), |w, l| {
                    let func = w.cur() == b"func";
                    w.opt(func, l.func_keyword());
                    let refs = w.cur() == b"funcref" || w.cur() == b"externref";
                    w.opt(refs, l.ref_type());
                    w.all(l.elem_exprs(), |w| w.k(K::L), Self::elem_expr);
                    w.all(l.indexes(), |w| w.k(K::Word), Self::index);
                });
                self.tok(f.r_paren_token());
            }
            _ => self.fail(KIND),
        }
    }
    fn func(&mut self, f: &ModuleFieldFunc) {
        self.tok(f.l_paren_token()); self.tok(f.keyword()); self.ident(f.ident_token());
        self.inline(None, Some(f.exports()), f.import());
        let there = self.at_type_use();
        self.node(there, f.type_use(), Self::type_use);
        self.all(f.locals(), |w| w.head() == b"local", |w, l| {
            w.tok(l.l_paren_token()); w.tok(l.keyword()); w.ident(l.ident_token());
            w.all(l.val_types(), |w| w.k(K::Word), Self::val_type);
            w.tok(l.r_paren_token());
        });
        self.instrs(f.instrs());
        self.tok(f.r_paren_token());
    }
    /// exports (of which only the first is given by some nodes), then an import
    fn inline(&mut self, first: Option<Export>, all: Option<AstChildren<Export>>, import: Option<Import>) {
        let export = |w: &mut Self, e: &Export| { w.tok(e.l_paren_token()); w.tok(e.keyword()); w.node(true, e.name(), |w, n| w.tok(n.string_token())); w.tok(e.r_paren_token()) };
        if let Some(all) = all { self.all(all, |w| w.head() == b"export", export) }
        else {
            let there = self.head() == b"export";
            self.node(there, first, export);
            while self.ok && self.head() == b"export" { self.i += 4 }
        }
        let there = self.head() == b"import";
        self.node(there, import, |w, m| {
            w.tok(m.l_paren_token()); w.tok(m.keyword());
            w.node(true, m.module_name(), |w, n| w.tok(n.string_token()));
            w.node(true, m.name(), |w, n| w.tok(n.string_token()));
            w.tok(m.r_paren_token());
        });
    }
    fn strings(&mut self, mut v: impl Iterator<Item = SyntaxToken>) {
        while self.ok && self.k(K::Str) { let t = v.next(); self.tok(t) }
        let t = v.next();
        self.none(t)
    }
    fn import_desc(&mut self, d: &ImportDesc) {
        match (self.head(), d) {
            (b"func", ImportDesc::TypeUse(d)) => {
                self.tok(d.l_paren_token()); self.tok(d.keyword()); self.ident(d.ident_token());
                let there = self.at_type_use();
                self.node(there, d.type_use(), Self::type_use);
                self.tok(d.r_paren_token());
            }
            (b"global", ImportDesc::GlobalType(d)) => {
                self.tok(d.l_paren_token()); self.tok(d.keyword()); self.ident(d.ident_token());
                self.node(true, d.global_type(), Self::global_type);
                self.tok(d.r_paren_token());
            }
            (b"memory", ImportDesc::MemoryType(d)) => {
                self.tok(d.l_paren_token()); self.tok(d.keyword()); self.ident(d.ident_token());
                self.node(true, d.memory_type(), |w, t| w.node(true, t.limits(), Self::limits));
                self.tok(d.r_paren_token());
            }
            (b"table", ImportDesc::TableType(d)) => {
                self.tok(d.l_paren_token()); self.tok(d.keyword()); self.ident(d.ident_token());
                self.node(true, d.table_type(), Self::table_type);
                self.tok(d.r_paren_token());
            }
            _ => self.fail(KIND),
        }
    }
    fn export_desc(&mut self, d: &ExportDesc) {
        macro_rules! desc { ($d:expr) => {{ self.tok($d.l_paren_token()); self.tok($d.keyword()); self.node(true, $d.index(), Self::index); self.tok($d.r_paren_token()) }} }
        match (self.head(), d) {
            (b"func", ExportDesc::Func(d)) => desc!(d),
            (b"global", ExportDesc::Global(d)) => desc!(d),
            (b"memory", ExportDesc::Memory(d)) => desc!(d),
            (b"table", ExportDesc::Table(d)) => desc!(d),
            _ => self.fail(KIND),
        }
    }
    fn index(&mut self, n: &Index) {
        let ident = self.is_ident();
        if ident { self.none(n.unsigned_int_token()); self.tok(n.ident_token()) } else { self.none(n.ident_token()); self.tok(n.unsigned_int_token()) }
    }
    fn offset(&mut self, n: &Offset) {
        if self.head() == b"offset" {
            self.tok(n.l_paren_token()); self.tok(n.keyword()); self.instrs(n.instrs()); self.tok(n.r_paren_token());
        } else { self.none(n.l_paren_token()); self.none(n.keyword()); self.none(n.r_paren_token()); self.one(n.instrs()) }
    }
    fn elem_expr(&mut self, n: &ElemExpr) {
        if self.head() == b"item" {
            self.tok(n.l_paren_token()); self.tok(n.keyword()); self.instrs(n.instrs()); self.tok(n.r_paren_token());
        } else { self.none(n.l_paren_token()); self.none(n.keyword()); self.none(n.r_paren_token()); self.one(n.instrs()) }
    }
    fn limits(&mut self, n: &Limits) {
        self.tok(n.min());
        let max = self.is_uint();
        self.opt(max, n.max());
        let share = self.cur() == b"shared" || self.cur() == b"unshared";
        self.opt(share, n.share());
    }
    fn table_type(&mut self, n: &TableType) { self.node(true, n.limits(), Self::limits); self.tok(n.ref_type()) }
    fn global_type(&mut self, n: &GlobalType) {
        let m = self.head() == b"mut";
        self.opt(m, n.l_paren_token()); self.opt(m, n.mut_keyword());
        self.node(true, n.val_type(), Self::val_type);
        self.opt(m, n.r_paren_token());
    }
    fn val_type(&mut self, n: &ValType) {
        let w = self.cur();
        let (v, r) = (w == b"v128", w == b"funcref" || w == b"externref");
        if !v { self.none(n.vec_type()) }
        if !r { self.none(n.ref_type()) }
        if v || r { self.none(n.num_type()) }
        self.tok(if v { n.vec_type() } else if r { n.ref_type() } else { n.num_type() });
    }
    fn params(&mut self, v: AstChildren<Param>) {
        self.all(v, |w| w.head() == b"param", |w, p| {
            w.tok(p.l_paren_token()); w.tok(p.keyword()); w.ident(p.ident_token());
            w.all(p.val_types(), |w| w.k(K::Word), Self::val_type);
            w.tok(p.r_paren_token());
        })
    }
    fn results(&mut self, v: AstChildren<Result>) {
        self.all(v, |w| w.head() == b"result", Self::result)
    }
    fn result(&mut self, p: &Result) {
        self.tok(p.l_paren_token()); self.tok(p.keyword());
        self.all(p.val_types(), |w| w.k(K::Word), Self::val_type);
        self.tok(p.r_paren_token());
    }
    fn at_type_use(&self) -> bool { matches!(self.head(), b"type" | b"param" | b"result") }
    fn type_use(&mut self, n: &TypeUse) {
        let there = self.head() == b"type";
        self.opt(there, n.l_paren_token()); self.opt(there, n.keyword());
        self.node(there, n.index(), Self::index);
        self.opt(there, n.r_paren_token());
        self.params(n.params()); self.results(n.results());
    }
    /// a single result, or a type use
    fn block_type(&mut self, n: Option<BlockType>) {
        let there = self.at_type_use();
        self.node(there, n, |w, n| {
            let r = n.result();
            if r.is_some() {
                w.none(n.type_use());
                let there = w.head() == b"result";
                w.node(there, r, Self::result);
                if w.at_type_use() { w.fail(KIND) }
            } else { w.node(true, n.type_use(), Self::type_use) }
        })
    }

    // ------------------------------------------------------------ instructions
    fn at_instr(&self) -> bool {
        if self.k(K::L) { !matches!(self.head(), b"then" | b"else") } else { self.k(K::Word) && !matches!(self.cur(), b"end" | b"else") }
    }
    fn instrs(&mut self, v: AstChildren<Instr>) { self.all(v, Self::at_instr, Self::instr) }
    /// exactly one
    fn one(&mut self, mut v: AstChildren<Instr>) {
        let n = v.next();
        self.node(true, n, Self::instr);
        let n = v.next();
        self.none(n)
    }
    fn instr(&mut self, n: &Instr) {
        let folded = self.k(K::L);
        let w = if folded { self.head() } else { self.cur() };
        match (w, n) {
            (b"block", Instr::Block(BlockInstr::Block(b))) => {
                self.opt(folded, b.l_paren_token()); self.tok(b.keyword()); self.ident(b.ident_token());
                self.block_type(b.block_type());
                self.instrs(b.instrs());
                self.end(folded, b.end_keyword(), b.end_ident_token(), b.r_paren_token());
            }
            (b"loop", Instr::Block(BlockInstr::Loop(b))) => {
                self.opt(folded, b.l_paren_token()); self.tok(b.keyword()); self.ident(b.ident_token());
                self.block_type(b.block_type());
                self.instrs(b.instrs());
                self.end(folded, b.end_keyword(), b.end_ident_token(), b.r_paren_token());
            }
            (b"if", Instr::Block(BlockInstr::If(b))) => {
                self.opt(folded, b.l_paren_token()); self.tok(b.keyword()); self.ident(b.ident_token());
                self.block_type(b.block_type());
                if folded { self.instrs(b.instrs()) } else { let n = b.instrs().next(); self.none(n) }
                self.node(true, b.then_block(), |w, t| {
                    w.opt(folded, t.l_paren_token()); w.opt(folded, t.keyword());
                    w.none(t.ident_token());
                    w.instrs(t.instrs());
                    w.opt(folded, t.r_paren_token());
                });
                let there = if folded { self.head() == b"else" } else { self.cur() == b"else" };
                self.node(there, b.else_block(), |w, t| {
                    w.opt(folded, t.l_paren_token()); w.tok(t.keyword()); w.ident(t.ident_token());
                    w.instrs(t.instrs());
                    w.opt(folded, t.r_paren_token());
                });
                self.end(folded, b.end_keyword(), b.end_ident_token(), b.r_paren_token());
            }
            (b"block" | b"loop" | b"if", _) => self.fail(KIND),
            (_, Instr::Plain(p)) => {
                self.opt(folded, p.l_paren_token()); self.tok(p.instr_name());
                self.all(p.operands(), |w| w.at_operand(folded), |w, o| w.operand(o));
                self.opt(folded, p.r_paren_token());
            }
            _ => self.fail(KIND),
        }
    }
    fn end(&mut self, folded: bool, kw: Option<SyntaxToken>, id: Option<SyntaxToken>, r: Option<SyntaxToken>) {
        if folded { self.none(kw); self.none(id); self.tok(r) } else { self.tok(kw); self.ident(id); self.none(r) }
    }
    fn at_operand(&self, folded: bool) -> bool {
        if self.k(K::L) { return folded || self.head() == b"type" }
        let w = self.cur();
        self.k(K::Word) && (w[0] == b'$' || matches!(w, b"func" | b"extern") || w.contains(&b'=') || number(w) != (false, false))
    }
    fn operand(&mut self, o: &Operand) {
        let w = self.cur();
        let (int, float) = if self.k(K::Word) { number(w) } else { (false, false) };
        let float = float && !int;
        let (ident, heap, mem) = (self.is_ident(), matches!(w, b"func" | b"extern"), self.k(K::Word) && w[0] != b'$' && w.contains(&b'='));
        self.opt(int, o.int()); if int { self.i -= 1 }
        self.opt(float, o.float()); if float { self.i -= 1 }
        self.opt(ident, o.ident()); if ident { self.i -= 1 }
        self.opt(heap, o.heap_type()); if heap { self.i -= 1 }
        self.opt(mem, o.mem_arg()); if mem { self.i -= 1 }
        self.none(o.string());
        let ty = self.at_type_use();
        let instr = self.k(K::L) && !ty;
        if self.k(K::Word) { self.i += 1; self.none(o.type_use()); self.none(o.instr()); return }
        if instr { self.none(o.type_use()) } else { self.none(o.instr()) }
        self.node(ty, if ty { o.type_use() } else { None }, Self::type_use);
        self.node(instr, if instr { o.instr() } else { None }, Self::instr);
    }
}
/// whatever is well-formed is given in full
fn given(s: &str) {
    note(s);
    if !crate::grammar::recognise(s, true) { reach("not well-formed"); return }
    let mut p = Parser::new(s);
    let root: SyntaxNode = p.parse();
    if !p.errors().is_empty() { reach("not well-formed"); return } // P02
    let Some(r) = Root::cast(root) else { check(false, "the tree is not a root"); return };
    let mut w = W { s: s.as_bytes(), t: lex(s).into_iter().filter(|t| !t.trivia()).collect(), i: 0, ok: true };
    w.root(&r);
    if w.ok && w.i != w.t.len() { w.fail(KIND) }
    check(w.ok, "given");
    reach("given");
}
/// params: lo, hi, n
pub fn ast_trivia() {
    let f = gfield();
    let toks = lex(&f);
    let g = pick(toks.len() + 1);
    let at = if g < toks.len() { toks[g].a } else { f.len() };
    let mut b = f.as_bytes()[..at].to_vec();
    if param(2, 0) > 0 { trivia(&mut b, param(2, 0) as usize) }
    b.extend_from_slice(&f.as_bytes()[at..]);
    given(&unsafe { String::from_utf8_unchecked(b) });
}
/// params: lo, hi, w, del
pub fn ast_window() {
    let f = gfield();
    given(&window(&f, param(2, 1) as usize, param(3, 0) as usize));
}
/// params: w, del
pub fn ast_docs() {
    let i = pick(DOCS.len() + BIG.len());
    let d = if i < DOCS.len() { DOCS[i] } else { BIG[i - DOCS.len()] };
    given(&window(d, param(0, 1) as usize, param(1, 0) as usize));
}
/// params: lo, hi, lowest and highest value of the byte
pub fn ast_moved() { let s = moved(); given(&s) }
/// params: lo, hi (kinds of fields), depth, choices, white space
pub fn ast_gen() {
    let s = crate::gen::module(param(0, 0) as usize, (param(1, 99) as usize).min(10), param(2, 1) as usize, param(3, 3) as usize, param(4, 0) > 0, true);
    note(&s);
    check(crate::grammar::recognise(&s, true), "(self-test) not well-formed");
    given(&s);
}
