//! Hash-consed bit-vector expressions with on-the-fly simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32; // 0 = "none"

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32, pub k: u128 }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<u128>,
    map: FxMap<Node, E>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    gen: u32,
}

#[inline] pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn sext128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { (w - 1) as u32 } else { b as u32 }; ((sext128(a, w) >> s) as u128) & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], sup: vec![], map: Default::default(), stamp: vec![], memo: vec![], gen: 0 };
        a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.sup.push(0);
        a
    }
    #[inline] pub fn n(&self, e: E) -> &Node { &self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as u32;
        let s = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << n.a,
            _ => {
                let mut s = self.sup[n.a as usize];
                if n.b != 0 && n.op != Op::Extract { s |= self.sup[n.b as usize]; }
                if n.c != 0 { s |= self.sup[n.c as usize]; }
                s
            }
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.map.insert(n, e);
        e
    }
    pub fn c(&mut self, w: u32, k: u128) -> E { self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) }) }
    pub fn var(&mut self, id: u32, w: u32) -> E { assert!(id < 128); self.mk(Node { op: Op::Var, w: w as u16, a: id, b: 0, c: 0, k: 0 }) }
    #[inline] pub fn is_c(&self, e: E) -> Option<u128> { let n = self.n(e); if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn tt(&mut self) -> E { self.c(1, 1) }
    pub fn ff(&mut self) -> E { self.c(1, 0) }
    pub fn not(&mut self, e: E) -> E { let w = self.w(e); let m = self.c(w, mask(w)); self.bin(Op::Xor, e, m) }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.is_c(a), self.is_c(b));
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
        if let (Some(x), Some(y)) = (ca, cb) { let k = fold(op, w, x, y); return self.c(rw, k); }
        // constants to the right for commutative ops
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if ca.is_some() => return self.bin(op, b, a),
            _ => {}
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb { let n = *self.n(a); if n.op == Op::Add { if let Some(x) = self.is_c(n.b) { let k = self.c(w, x.wrapping_add(y)); return self.bin(Op::Add, n.a, k); } } }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.c(w, 0); }
                if let Some(y) = cb { let k = self.c(w, (0u128).wrapping_sub(y) & m); return self.bin(Op::Add, a, k); }
                let n = *self.n(a);
                if n.op == Op::Add { if n.a == b { return n.b; } }
                let nb = *self.n(b);
                if n.op == Op::Add && nb.op == Op::Add && n.a == nb.a { return self.bin(Op::Sub, n.b, nb.b); }
            }
            Op::Mul => { if cb == Some(0) { return b; } if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(w, y.trailing_zeros() as u128); return self.bin(Op::Shl, a, k); } } }
            Op::UDiv => { if cb == Some(1) { return a; } }
            Op::And => {
                if cb == Some(0) { return b; } if cb == Some(m) { return a; } if a == b { return a; }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::And { if let Some(x) = self.is_c(n.b) { let k = self.c(w, x & y); return self.bin(Op::And, n.a, k); } }
                    if n.op == Op::ZExt { let iw = self.w(n.a); if y & mask(iw) == mask(iw) { return a; } if y & mask(iw) == 0 { return self.c(w, 0); } let k = self.c(iw, y); let r = self.bin(Op::And, n.a, k); return self.zext(r, w); }
                    // low mask -> zext(extract)
                    if y != 0 && (y & (y + 1)) == 0 { let bits = 128 - y.leading_zeros(); let x = self.extract(a, 0, bits); return self.zext(x, w); }
                }
                if w == 1 { let na = self.not_raw(a); if na == Some(b) { return self.c(1, 0); } }
            }
            Op::Or => {
                if cb == Some(0) { return a; } if cb == Some(m) { return b; } if a == b { return a; }
                // concat-like or
                if let Some(r) = self.or_concat(a, b, w) { return r; }
                if w == 1 { let na = self.not_raw(a); if na == Some(b) { return self.c(1, 1); } }
            }
            Op::Xor => {
                if cb == Some(0) { return a; } if a == b { return self.c(w, 0); }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::Xor { if let Some(x) = self.is_c(n.b) { let k = self.c(w, x ^ y); return self.bin(Op::Xor, n.a, k); } }
                    if w == 1 && y == 1 {
                        // push not into comparisons
                        match n.op {
                            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                            // !(p || q) = !p && !q
                            Op::Or => { let p = self.not(n.a); let q = self.not(n.b); return self.bin(Op::And, p, q); }
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb { if y >= w as u128 { return self.c(w, 0); } let y = y as u32; let lo = self.extract(a, 0, w - y); let z = self.c(y, 0); return self.concat(lo, z); }
            }
            Op::LShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb { if y >= w as u128 { return self.c(w, 0); } let y = y as u32; let hi = self.extract(a, y, w - y); return self.zext(hi, w); }
            }
            Op::AShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb { let y = (y as u32).min(w - 1); let hi = self.extract(a, y, w - y); return self.sext(hi, w); }
            }
            Op::Eq => {
                if a == b { return self.c(1, 1); }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    match n.op {
                        Op::ZExt => { let iw = self.w(n.a); if y > mask(iw) { return self.c(1, 0); } let k = self.c(iw, y); return self.bin(Op::Eq, n.a, k); }
                        Op::SExt => { let iw = self.w(n.a); let low = y & mask(iw); if (sext128(low, iw) as u128) & m != y { return self.c(1, 0); } let k = self.c(iw, low); return self.bin(Op::Eq, n.a, k); }
                        Op::Concat => { let lw = self.w(n.b); let hw = self.w(n.a); let kl = self.c(lw, y & mask(lw)); let kh = self.c(hw, y >> lw);
                            let e1 = self.bin(Op::Eq, n.a, kh); if self.is_c(e1) == Some(0) { return e1; } let e2 = self.bin(Op::Eq, n.b, kl); return self.bin(Op::And, e1, e2); }
                        Op::Ite => {
                            if let Some(t) = self.is_c(n.b) { if let Some(f) = self.is_c(n.c) {
                                return if t == y && f == y { self.c(1, 1) } else if t == y { n.a } else if f == y { self.not(n.a) } else { self.c(1, 0) };
                            } }
                            let t = self.is_c(n.b); let f = self.is_c(n.c);
                            if t.is_some() || f.is_some() {
                                let e1 = self.bin(Op::Eq, n.b, b); let e2 = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, e1, e2);
                            }
                        }
                        Op::Add => { if let Some(x) = self.is_c(n.b) { let k = self.c(w, y.wrapping_sub(x)); return self.bin(Op::Eq, n.a, k); } }
                        Op::Xor => { if let Some(x) = self.is_c(n.b) { let k = self.c(w, y ^ x); return self.bin(Op::Eq, n.a, k); } }
                        _ => {}
                    }
                    if w == 1 { return if y == 1 { a } else { self.not(a) }; }
                } else {
                    let (na, nb) = (*self.n(a), *self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) { let e1 = self.bin(Op::Eq, na.a, nb.a); let e2 = self.bin(Op::Eq, na.b, nb.b); return self.bin(Op::And, e1, e2); }
                    if a > b { return self.bin(Op::Eq, b, a); }
                }
            }
            Op::Ult => {
                if a == b { return self.c(1, 0); }
                if cb == Some(0) { return self.c(1, 0); }
                if ca == Some(m) { return self.c(1, 0); }
                if let Some(y) = cb {
                    if y == 1 { let z = self.c(w, 0); return self.bin(Op::Eq, a, z); }
                    if y == m { let e = self.bin(Op::Eq, a, b); return self.not(e); }
                    let n = *self.n(a);
                    if n.op == Op::ZExt { let iw = self.w(n.a); if y > mask(iw) { return self.c(1, 1); } let k = self.c(iw, y); return self.bin(Op::Ult, n.a, k); }
                    // zext(v)+k < y, where the sum cannot wrap
                    // z - k < y  ==  k <= z && z < y + k (a wrapped difference is larger than any such y)
                    if n.op == Op::Add { if let Some(kk) = self.is_c(n.b) { let k = m - kk + 1; let z = *self.n(n.a); if z.op == Op::ZExt && k <= mask(self.w(z.a)) && y + k <= m {
                        let (kc, yc) = (self.c(w, k), self.c(w, y + k)); let e1 = self.bin(Op::Ule, kc, n.a); let e2 = self.bin(Op::Ult, n.a, yc); return self.bin(Op::And, e1, e2); } } }
                    if n.op == Op::Add { if let Some(k) = self.is_c(n.b) { let z = *self.n(n.a); if z.op == Op::ZExt && k + mask(self.w(z.a)) <= m {
                        if y <= k { return self.c(1, 0); } let c = self.c(w, y - k); return self.bin(Op::Ult, n.a, c); } } }
                    if n.op == Op::Ite { if let (Some(t), Some(f)) = (self.is_c(n.b), self.is_c(n.c)) { let (t, f) = (t < y, f < y); return if t && f { self.c(1, 1) } else if t { n.a } else if f { self.not(n.a) } else { self.c(1, 0) }; } }
                }
                if let Some(x) = ca {
                    if x == 0 { let e = self.bin(Op::Eq, b, a); return self.not(e); }
                    let n = *self.n(b);
                    if n.op == Op::ZExt { let iw = self.w(n.a); if x >= mask(iw) { return self.c(1, 0); } let k = self.c(iw, x); return self.bin(Op::Ult, k, n.a); }
                    if n.op == Op::Add { if let Some(kk) = self.is_c(n.b) { let k = m - kk + 1; let z = *self.n(n.a); if z.op == Op::ZExt && k <= mask(self.w(z.a)) && x + k < m {
                        let (kc, xc) = (self.c(w, k), self.c(w, x + k)); let e1 = self.bin(Op::Ult, n.a, kc); let e2 = self.bin(Op::Ult, xc, n.a); return self.bin(Op::Or, e1, e2); } } }
                    if n.op == Op::Add { if let Some(k) = self.is_c(n.b) { let z = *self.n(n.a); if z.op == Op::ZExt && k + mask(self.w(z.a)) <= m {
                        if x < k { return self.c(1, 1); } let c = self.c(w, x - k); return self.bin(Op::Ult, c, n.a); } } }
                    if n.op == Op::Ite { if let (Some(t), Some(f)) = (self.is_c(n.b), self.is_c(n.c)) { let (t, f) = (x < t, x < f); return if t && f { self.c(1, 1) } else if t { n.a } else if f { self.not(n.a) } else { self.c(1, 0) }; } }
                }
                let (na, nb) = (*self.n(a), *self.n(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); }
            }
            Op::Ule => { let e = self.bin(Op::Ult, b, a); return self.not_keep(e, Op::Ule, a, b); }
            Op::Slt | Op::Sle => {
                if a == b { return self.c(1, (op == Op::Sle) as u128); }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::ZExt {
                        let y = sext128(y, w);
                        let iw = self.w(n.a);
                        if y < 0 { return self.c(1, 0); }
                        if y as u128 > mask(iw) { return self.c(1, 1); }
                        let k = self.c(iw, y as u128);
                        return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, n.a, k);
                    }
                }
                if let Some(x) = ca {
                    let n = *self.n(b);
                    if n.op == Op::ZExt {
                        let x = sext128(x, w);
                        let iw = self.w(n.a);
                        if x < 0 { return self.c(1, 1); }
                        if x as u128 > mask(iw) { return self.c(1, 0); }
                        let k = self.c(iw, x as u128);
                        return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, k, n.a);
                    }
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw as u16, a, b, c: 0, k: 0 })
    }
    fn not_keep(&mut self, lt: E, _op: Op, a: E, b: E) -> E {
        // a <= b  ==  !(b < a); if (b<a) simplified to something other than Ult, negate it
        let n = *self.n(lt);
        if n.op == Op::Ult && n.a == b && n.b == a { return self.mk(Node { op: Op::Ule, w: 1, a, b, c: 0, k: 0 }); }
        if n.op == Op::Ult { return self.mk(Node { op: Op::Ule, w: 1, a: n.b, b: n.a, c: 0, k: 0 }); }
        self.not(lt)
    }
    fn not_raw(&mut self, e: E) -> Option<E> { let n = *self.n(e); if n.op == Op::Xor && self.is_c(n.b) == Some(1) && n.w == 1 { Some(n.a) } else { let one = self.c(1, 1); let k = Node { op: Op::Xor, w: 1, a: e, b: one, c: 0, k: 0 }; self.map.get(&k).copied() } }
    // or of disjoint zext / concat pieces -> concat
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let (la, ha) = self.bounds(a); let (lb, hb) = self.bounds(b);
        // bits of a lie in [la,ha), bits of b in [lb,hb)
        let (hi, lo, split) = if la >= hb && hb > 0 { (a, b, la) } else if lb >= ha && ha > 0 { (b, a, lb) } else { return None };
        if split == 0 || split >= w { return None; }
        let h = self.extract(hi, split, w - split);
        let l = self.extract(lo, 0, split);
        Some(self.concat(h, l))
    }
    fn bounds(&self, e: E) -> (u32, u32) {
        let n = self.n(e);
        match n.op {
            Op::Const => if n.k == 0 { (0, 0) } else { (n.k.trailing_zeros(), 128 - n.k.leading_zeros()) },
            Op::ZExt => self.bounds(n.a),
            Op::Concat => { let lw = self.w(n.b); let (l1, h1) = self.bounds(n.a); let (l2, h2) = self.bounds(n.b);
                if h1 == 0 { (l2, h2) } else if h2 == 0 { (l1 + lw, h1 + lw) } else { (l2, h1 + lw) } }
            _ => (0, n.w as u32),
        }
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.is_c(c) { return if k == 1 { t } else { f }; }
        if t == f { return t; }
        let w = self.w(t);
        if w == 1 {
            match (self.is_c(t), self.is_c(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, f); }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, t); }
                _ => {}
            }
        }
        let nc = *self.n(c);
        if nc.op == Op::Xor && self.is_c(nc.b) == Some(1) { return self.ite(nc.a, f, t); }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: t, c: f, k: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let (ch, cl) = (self.is_c(hi), self.is_c(lo));
        if let (Some(h), Some(l)) = (ch, cl) { return self.c(hw + lw, (h << lw) | l); }
        if ch == Some(0) { return self.zext(lo, hw + lw); }
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw { return self.extract(nh.a, nl.b, hw + lw); }
        if nl.op == Op::Concat {
            // right-nested: concat(hi, concat(x, y)) -> concat(concat(hi,x), y)
            let x = self.concat(hi, nl.a);
            return self.concat(x, nl.b);
        }
        // concat(extract(X, lw..), Y) where Y is the simplified low part of X
        if nh.op == Op::Extract && nh.b == lw { let l = self.extract(nh.a, 0, lw); if l == lo { return self.extract(nh.a, 0, hw + lw); } }
        // concat(extract(x), lo) with hi = concat(h2, extract adjacent)
        if nh.op == Op::Concat && nl.op == Op::Extract {
            let t = *self.n(nh.b);
            if t.op == Op::Extract && t.a == nl.a && t.b == nl.b + lw { let l2 = self.extract(nl.a, nl.b, self.w(nh.b) + lw); return self.concat(nh.a, l2); }
        }
        if nh.op == Op::Concat { if let (Some(a), Some(b)) = (self.is_c(nh.b), cl) { let k = self.c(self.w(nh.b) + lw, (a << lw) | b); return self.mk(Node { op: Op::Concat, w: (hw + lw) as u16, a: nh.a, b: k, c: 0, k: 0 }); } }
        self.mk(Node { op: Op::Concat, w: (hw + lw) as u16, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew { return e; }
        let n = *self.n(e);
        match n.op {
            Op::Const => return self.c(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.c(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let x = self.extract(n.a, lo, iw - lo); return self.sext(x, w); }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.is_c(n.b).is_some() || self.is_c(n.c).is_some() {
                    let t = self.extract(n.b, lo, w); let f = self.extract(n.c, lo, w);
                    return self.ite(n.a, t, f);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w); let b = self.extract(n.b, lo, w);
                return self.bin(n.op, a, b);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, 0, w); let b = self.extract(n.b, 0, w);
                return self.bin(n.op, a, b);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u16, a: e, b: lo, c: 0, k: 0 })
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        let n = *self.n(e);
        match n.op {
            Op::Const => return self.c(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => if self.is_c(n.b).is_some() && self.is_c(n.c).is_some() { let t = self.zext(n.b, w); let f = self.zext(n.c, w); return self.ite(n.a, t, f); },
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w: w as u16, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        let n = *self.n(e);
        match n.op {
            Op::Const => return self.c(w, sext128(n.k, ew) as u128),
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite => if self.is_c(n.b).is_some() && self.is_c(n.c).is_some() { let t = self.sext(n.b, w); let f = self.sext(n.c, w); return self.ite(n.a, t, f); },
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w: w as u16, a: e, b: 0, c: 0, k: 0 })
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }
    pub fn eqk(&mut self, a: E, k: u128) -> E { let w = self.w(a); let c = self.c(w, k); self.bin(Op::Eq, a, c) }

    /// Evaluate under a model (missing vars = 0).
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        if self.stamp.len() < self.nodes.len() { self.stamp.resize(self.nodes.len() + 1024, 0); self.memo.resize(self.nodes.len() + 1024, 0); }
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 { self.stamp.iter_mut().for_each(|x| *x = 0); self.gen = 1; }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op { Op::Const => return n.k, Op::Var => return *model.get(n.a as usize).unwrap_or(&0) as u128, _ => {} }
        if self.stamp[e as usize] == self.gen { return self.memo[e as usize]; }
        let r = match n.op {
            Op::Ite => if self.ev(n.a, model) == 1 { self.ev(n.b, model) } else { self.ev(n.c, model) },
            Op::Concat => { let lw = self.w(n.b); (self.ev(n.a, model) << lw) | self.ev(n.b, model) }
            Op::Extract => (self.ev(n.a, model) >> n.b) & mask(n.w as u32),
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => { let iw = self.w(n.a); (sext128(self.ev(n.a, model), iw) as u128) & mask(n.w as u32) }
            op => { let w = self.w(n.a); let (a, b) = (self.ev(n.a, model), self.ev(n.b, model)); fold(op, w, a, b) }
        };
        self.stamp[e as usize] = self.gen;
        self.memo[e as usize] = r;
        r
    }
}
