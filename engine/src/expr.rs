//! Hash-consed bit-vector / array terms with an eager simplifier.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Undef,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt,
    Ite, Zext, Sext, Ext, Concat,
    Select, AVar, AConst, AStore,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub imm: u128 }

#[derive(Default)]
pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, FxB>,
    selmemo: HashMap<(E, E), E, FxB>,
    pub vars: Vec<String>,
}

#[derive(Default, Clone)]
pub struct FxB;
impl std::hash::BuildHasher for FxB { type Hasher = Fx; fn build_hasher(&self) -> Fx { Fx(0) } }
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Ctx {
    pub fn n(&self, e: E) -> &Node { &self.nodes[e as usize] }
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, imm: u128) -> E {
        let n = Node { op, w, a, b, c, imm };
        if let Some(e) = self.map.get(&n) { return *e; }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn konst(&mut self, w: u16, v: u128) -> E { self.mk(Op::Const, w, 0, 0, 0, v & mask(w)) }
    pub fn k64(&mut self, v: u64) -> E { self.konst(64, v as u128) }
    pub fn tt(&mut self) -> E { self.konst(1, 1) }
    pub fn ff(&mut self) -> E { self.konst(1, 0) }
    pub fn bool(&mut self, b: bool) -> E { self.konst(1, b as u128) }
    pub fn cv(&self, e: E) -> Option<u128> { let n = self.n(e); if n.op == Op::Const { Some(n.imm) } else { None } }
    pub fn is_c(&self, e: E) -> bool { self.n(e).op == Op::Const }
    pub fn var(&mut self, w: u16, name: &str) -> E {
        let id = self.vars.len();
        self.vars.push(name.to_string());
        self.mk(Op::Var, w, 0, 0, 0, id as u128)
    }
    pub fn undef(&mut self, w: u16) -> E { self.mk(Op::Undef, w, 0, 0, 0, 0) }
    pub fn avar(&mut self, name: &str) -> E {
        let id = self.vars.len();
        self.vars.push(name.to_string());
        self.mk(Op::AVar, 0, 0, 0, 0, id as u128)
    }
    pub fn aconst(&mut self, byte: u8) -> E { self.mk(Op::AConst, 0, 0, 0, 0, byte as u128) }

    pub fn not(&mut self, a: E) -> E { let w = self.w(a); let m = self.konst(w, u128::MAX); self.xor(a, m) }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.is_c(a) { (b, a) } else { (a, b) };
        if let Some(cb) = self.cv(b) {
            if cb == 0 { return a; }
            if let Some(ca) = self.cv(a) { return self.konst(w, ca.wrapping_add(cb)); }
            let n = *self.n(a);
            if n.op == Op::Add { if let Some(c2) = self.cv(n.b) { let k = self.konst(w, cb.wrapping_add(c2)); return self.add(n.a, k); } }
            if n.op == Op::Ite && self.is_c(n.b) && self.is_c(n.c) {
                let x = self.add(n.b, b); let y = self.add(n.c, b);
                return self.ite(n.a, x, y);
            }
            return self.mk(Op::Add, w, a, b, 0, 0);
        }
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::Add && self.is_c(na.b) { let s = self.add(na.a, b); return self.add(s, na.b); }
        if nb.op == Op::Add && self.is_c(nb.b) { let s = self.add(a, nb.a); return self.add(s, nb.b); }
        if na.op == Op::Sub && na.b == b { return na.a; }
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(w, 0); }
        if let Some(cb) = self.cv(b) { let k = self.konst(w, (!cb).wrapping_add(1)); return self.add(a, k); }
        let na = *self.n(a);
        let nb = *self.n(b);
        if nb.op == Op::Add && self.is_c(nb.b) {
            let cb = self.cv(nb.b).unwrap();
            let k = self.konst(w, (!cb).wrapping_add(1));
            let s = self.sub(a, nb.a);
            return self.add(s, k);
        }
        if na.op == Op::Add {
            if self.is_c(na.b) { let s = self.sub(na.a, b); return self.add(s, na.b); }
            if na.a == b { return na.b; }
            if na.b == b { return na.a; }
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.is_c(a) { (b, a) } else { (a, b) };
        if let Some(cb) = self.cv(b) {
            if cb == 0 { return b; }
            if cb == 1 { return a; }
            if let Some(ca) = self.cv(a) { return self.konst(w, ca.wrapping_mul(cb)); }
            if cb.is_power_of_two() { let k = self.konst(w, cb.trailing_zeros() as u128); return self.shl(a, k); }
        }
        let (a, b) = if self.is_c(b) || a < b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn divop(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                let r = match op {
                    Op::UDiv => x / y,
                    Op::URem => x % y,
                    Op::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u128,
                    Op::SRem => sx(x, w).wrapping_rem(sx(y, w)) as u128,
                    _ => unreachable!(),
                };
                return self.konst(w, r);
            }
        }
        if let Some(y) = self.cv(b) {
            if y == 1 { return if matches!(op, Op::UDiv | Op::SDiv) { a } else { self.konst(w, 0) }; }
            if y.is_power_of_two() && op == Op::UDiv { let k = self.konst(w, y.trailing_zeros() as u128); return self.lshr(a, k); }
            if y.is_power_of_two() && op == Op::URem { let k = self.konst(w, y - 1); return self.and(a, k); }
        }
        self.mk(op, w, a, b, 0, 0)
    }
    /// decompose into bit segments, low to high: (width, None = zero bits | Some(term, lo))
    fn segs(&self, e: E, out: &mut Vec<(u16, Option<(E, u16)>)>, depth: u32) -> bool {
        let n = *self.n(e);
        match n.op {
            Op::Const => {
                let mut i = 0;
                while i < n.w {
                    let bit = n.imm >> i & 1;
                    let mut j = i + 1;
                    while j < n.w && (n.imm >> j & 1) == bit { j += 1; }
                    out.push((j - i, if bit == 0 { None } else { Some((e, i)) }));
                    i = j;
                }
                true
            }
            Op::Concat if depth < 20 => {
                let x = self.segs(n.b, out, depth + 1);
                let y = self.segs(n.a, out, depth + 1);
                x || y
            }
            Op::Zext if depth < 20 => {
                self.segs(n.a, out, depth + 1);
                out.push((n.w - self.w(n.a), None));
                true
            }
            _ => { out.push((n.w, Some((e, 0)))); false }
        }
    }
    fn try_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let (mut sa, mut sb) = (vec![], vec![]);
        let za = self.segs(a, &mut sa, 0);
        let zb = self.segs(b, &mut sb, 0);
        if !za || !zb { return None; }
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u16, 0u16);
        let mut parts: Vec<(u16, Option<(E, u16)>)> = vec![];
        while i < sa.len() && j < sb.len() {
            let ra = sa[i].0 - oi;
            let rb = sb[j].0 - oj;
            let l = ra.min(rb);
            let x = sa[i].1.map(|(e, lo)| (e, lo + oi));
            let y = sb[j].1.map(|(e, lo)| (e, lo + oj));
            match (x, y) {
                (None, None) => parts.push((l, None)),
                (Some(p), None) | (None, Some(p)) => parts.push((l, Some(p))),
                _ => return None,
            }
            oi += l; oj += l;
            if oi == sa[i].0 { i += 1; oi = 0; }
            if oj == sb[j].0 { j += 1; oj = 0; }
        }
        let mut acc: Option<E> = None;
        for (l, p) in parts {
            let t = match p { None => self.konst(l, 0), Some((e, lo)) => self.ext(e, lo, l) };
            acc = Some(match acc { None => t, Some(low) => self.concat(t, low) });
        }
        acc
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if self.is_c(a) { (b, a) } else { (a, b) };
        if let Some(cb) = self.cv(b) {
            if cb == 0 { return b; }
            if cb == mask(w) { return a; }
            if let Some(ca) = self.cv(a) { return self.konst(w, ca & cb); }
            let mut s = vec![];
            self.segs(b, &mut s, 0);
            if s.len() <= 5 {
                let mut lo = 0;
                let mut acc: Option<E> = None;
                for (l, p) in s {
                    let t = if p.is_none() { self.konst(l, 0) } else { self.ext(a, lo, l) };
                    lo += l;
                    acc = Some(match acc { None => t, Some(low) => self.concat(t, low) });
                }
                return acc.unwrap();
            }
            return self.mk(Op::And, w, a, b, 0, 0);
        }
        if w == 1 {
            let nb_ = self.not(b);
            if a == nb_ { return self.ff(); }
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == Op::And && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
            if na.op == Op::Or && (na.a == b || na.b == b) { return b; }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; }
            let na_ = self.not(a);
            if nb.op == Op::Or && nb.a == na_ { return self.and(a, nb.b); }
            if nb.op == Op::Or && nb.b == na_ { return self.and(a, nb.a); }
            if na.op == Op::Or && na.a == nb_ { return self.and(b, na.b); }
            if na.op == Op::Or && na.b == nb_ { return self.and(b, na.a); }
            if nb.op == Op::And && (nb.a == na_ || nb.b == na_) { return self.ff(); }
            if na.op == Op::And && (na.a == nb_ || na.b == nb_) { return self.ff(); }
            // x == C1 && x == C2
            if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a && self.is_c(na.b) && self.is_c(nb.b) { return self.ff(); }
        }
        if self.n(a).op == Op::Zext && self.n(b).op == Op::Zext && self.w(self.n(a).a) == self.w(self.n(b).a) {
            let (x, y) = (self.n(a).a, self.n(b).a);
            let z = self.and(x, y);
            return self.zext(z, w);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if self.is_c(a) { (b, a) } else { (a, b) };
        if let Some(cb) = self.cv(b) {
            if cb == 0 { return a; }
            if cb == mask(w) { return b; }
            if let Some(ca) = self.cv(a) { return self.konst(w, ca | cb); }
        }
        if w == 1 {
            let nb_ = self.not(b);
            if a == nb_ { return self.tt(); }
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
            if na.op == Op::And && (na.a == b || na.b == b) { return b; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; }
            let na_ = self.not(a);
            if nb.op == Op::And && nb.a == na_ { return self.or(a, nb.b); }
            if nb.op == Op::And && nb.b == na_ { return self.or(a, nb.a); }
            if na.op == Op::And && na.a == nb_ { return self.or(b, na.b); }
            if na.op == Op::And && na.b == nb_ { return self.or(b, na.a); }
            if nb.op == Op::Or && (nb.a == na_ || nb.b == na_) { return self.tt(); }
            if na.op == Op::Or && (na.a == nb_ || na.b == nb_) { return self.tt(); }
            // (p & q) | (p & !q) = p
            if na.op == Op::And && nb.op == Op::And {
                for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                    for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                        if p == r { let ns = self.not(s); if q == ns { return p; } }
                    }
                }
            }
        } else {
            if let Some(e) = self.try_disjoint(a, b) { return e; }
            if self.n(a).op == Op::Zext && self.n(b).op == Op::Zext && self.w(self.n(a).a) == self.w(self.n(b).a) {
                let (x, y) = (self.n(a).a, self.n(b).a);
                let z = self.or(x, y);
                return self.zext(z, w);
            }
        }
        let (a, b) = if self.is_c(b) || a < b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(w, 0); }
        let (a, b) = if self.is_c(a) { (b, a) } else { (a, b) };
        if let Some(cb) = self.cv(b) {
            if cb == 0 { return a; }
            if let Some(ca) = self.cv(a) { return self.konst(w, ca ^ cb); }
            let na = *self.n(a);
            if na.op == Op::Xor { if let Some(c2) = self.cv(na.b) { let k = self.konst(w, cb ^ c2); return self.xor(na.a, k); } }
            if w == 1 && na.op == Op::Ite { let x = self.xor(na.b, b); let y = self.xor(na.c, b); return self.ite(na.a, x, y); }
            if na.op == Op::Zext && cb < (1u128 << self.w(na.a).min(127)) {
                let iw = self.w(na.a);
                let k = self.konst(iw, cb);
                let x = self.xor(na.a, k);
                return self.zext(x, w);
            }
            return self.mk(Op::Xor, w, a, b, 0, 0);
        }
        if w > 1 {
            if let Some(e) = self.try_disjoint(a, b) { return e; }
            if self.n(a).op == Op::Zext && self.n(b).op == Op::Zext && self.w(self.n(a).a) == self.w(self.n(b).a) {
                let (x, y) = (self.n(a).a, self.n(b).a);
                let z = self.xor(x, y);
                return self.zext(z, w);
            }
        } else {
            // push negations out
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == Op::Xor && self.is_c(na.b) { let x = self.xor(na.a, b); return self.not(x); }
            if nb.op == Op::Xor && self.is_c(nb.b) { let x = self.xor(a, nb.a); return self.not(x); }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.konst(w, 0); }
            let k = k as u16;
            let x = self.ext(a, 0, w - k);
            let z = self.konst(k, 0);
            return self.concat(x, z);
        }
        if self.cv(a) == Some(0) { return a; }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.konst(w, 0); }
            let k = k as u16;
            let x = self.ext(a, k, w - k);
            return self.zext(x, w);
        }
        if self.cv(a) == Some(0) { return a; }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 { return a; }
            let k = (k as u16).min(w - 1);
            let x = self.ext(a, k, w - k);
            return self.sext(x, w);
        }
        if self.cv(a) == Some(0) { return a; }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = *self.n(a);
        if n.w == w { return a; }
        assert!(n.w < w, "zext");
        match n.op {
            Op::Const => self.konst(w, n.imm),
            Op::Zext => self.zext(n.a, w),
            Op::Ite if self.is_c(n.b) && self.is_c(n.c) && n.w > 1 => {
                let x = self.zext(n.b, w); let y = self.zext(n.c, w); self.ite(n.a, x, y)
            }
            _ => self.mk(Op::Zext, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = *self.n(a);
        if n.w == w { return a; }
        match n.op {
            Op::Const => self.konst(w, sx(n.imm, n.w) as u128),
            Op::Zext => self.zext(n.a, w),
            Op::Sext => self.sext(n.a, w),
            _ => {
                if n.w == 1 { let x = self.konst(w, u128::MAX); let y = self.konst(w, 0); return self.ite(a, x, y); }
                self.mk(Op::Sext, w, a, 0, 0, 0)
            }
        }
    }
    /// bits [lo, lo+w)
    pub fn ext(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = *self.n(a);
        if lo == 0 && w == n.w { return a; }
        assert!(w > 0 && lo + w <= n.w, "ext {} {} of {}", lo, w, n.w);
        match n.op {
            Op::Const => return self.konst(w, n.imm >> lo),
            Op::Undef => return self.undef(w),
            Op::Ext => return self.ext(n.a, lo + n.imm as u16, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl { return self.ext(n.b, lo, w); }
                if lo >= wl { return self.ext(n.a, lo - wl, w); }
                let l = self.ext(n.b, lo, wl - lo);
                let h = self.ext(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::Zext => {
                let wl = self.w(n.a);
                if lo >= wl { return self.konst(w, 0); }
                if lo + w <= wl { return self.ext(n.a, lo, w); }
                let l = self.ext(n.a, lo, wl - lo);
                return self.zext(l, w);
            }
            Op::Sext => {
                let wl = self.w(n.a);
                if lo + w <= wl { return self.ext(n.a, lo, w); }
                if lo < wl { let l = self.ext(n.a, lo, wl - lo); return self.sext(l, w); }
                let s = self.ext(n.a, wl - 1, 1);
                return self.sext(s, w);
            }
            Op::Ite if self.is_c(n.b) || self.is_c(n.c) => {
                let x = self.ext(n.b, lo, w); let y = self.ext(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::And | Op::Or | Op::Xor if self.is_c(n.b) || self.is_c(n.a) || n.w <= 16 => {
                let x = self.ext(n.a, lo, w); let y = self.ext(n.b, lo, w);
                return match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
            }
            _ => {}
        }
        self.mk(Op::Ext, w, a, 0, 0, lo as u128)
    }
    /// a is the high part
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w + nb.w;
        assert!(w <= 128, "concat too wide");
        match (na.op, nb.op) {
            (Op::Const, Op::Const) => return self.konst(w, na.imm << nb.w | nb.imm),
            (Op::Const, _) if na.imm == 0 => return self.zext(b, w),
            (Op::Zext, _) => { let x = self.concat(na.a, b); return self.zext(x, w); }
            (Op::Undef, Op::Undef) => return self.undef(w),
            (Op::Ext, Op::Ext) if na.a == nb.a && na.imm as u16 == nb.imm as u16 + nb.w => return self.ext(na.a, nb.imm as u16, w),
            (Op::Ite, Op::Ite) if na.a == nb.a => {
                let x = self.concat(na.b, nb.b); let y = self.concat(na.c, nb.c);
                return self.ite(na.a, x, y);
            }
            (Op::Ite, Op::Const) if self.is_c(na.b) && self.is_c(na.c) => {
                let x = self.concat(na.b, b); let y = self.concat(na.c, b);
                return self.ite(na.a, x, y);
            }
            _ => {}
        }
        if nb.op == Op::Concat {
            // try merging a with the top of b
            let t = nb.a;
            let nt = *self.n(t);
            let merge = match (na.op, nt.op) {
                (Op::Const, Op::Const) => true,
                (Op::Ext, Op::Ext) => na.a == nt.a && na.imm as u16 == nt.imm as u16 + nt.w,
                (Op::Ite, Op::Ite) => na.a == nt.a,
                _ => false,
            };
            if merge { let x = self.concat(a, t); return self.concat(x, nb.b); }
        }
        if nb.op == Op::Zext && na.op != Op::Const {
            // keep zero run explicit so that adjacent parts stay visible
            let z = self.konst(nb.w - self.w(nb.a), 0);
            let hi = self.concat(a, z);
            return self.concat_raw(hi, nb.a);
        }
        self.concat_raw(a, b)
    }
    fn concat_raw(&mut self, a: E, b: E) -> E {
        // right-nested canonical form: Concat(x, Concat(y, ..))
        let na = *self.n(a);
        if na.op == Op::Concat { let r = self.concat(na.b, b); return self.concat_raw2(na.a, r); }
        self.concat_raw2(a, b)
    }
    fn concat_raw2(&mut self, a: E, b: E) -> E {
        let w = self.w(a) + self.w(b);
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.tt(); }
        let w = self.w(a);
        debug_assert!(w == self.w(b) && w > 0);
        let (a, b) = if self.is_c(a) { (b, a) } else { (a, b) };
        let na = *self.n(a);
        if let Some(cb) = self.cv(b) {
            if let Some(ca) = self.cv(a) { return self.bool(ca == cb); }
            if w == 1 { return if cb == 1 { a } else { self.not(a) }; }
            match na.op {
                Op::Zext => {
                    let iw = self.w(na.a);
                    if cb > mask(iw) { return self.ff(); }
                    let k = self.konst(iw, cb);
                    return self.eq(na.a, k);
                }
                Op::Sext => {
                    let iw = self.w(na.a);
                    let k = self.konst(iw, cb);
                    if sx(cb & mask(iw), iw) as u128 & mask(w) != cb { return self.ff(); }
                    return self.eq(na.a, k);
                }
                Op::Concat if self.is_c(na.a) || self.is_c(na.b) || w <= 16 => {
                    let wl = self.w(na.b);
                    let kl = self.konst(wl, cb);
                    let kh = self.konst(w - wl, cb >> wl);
                    let x = self.eq(na.a, kh);
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::Add if self.is_c(na.b) => {
                    let k = self.konst(w, cb.wrapping_sub(self.cv(na.b).unwrap()));
                    return self.eq(na.a, k);
                }
                Op::Xor if self.is_c(na.b) => {
                    let k = self.konst(w, cb ^ self.cv(na.b).unwrap());
                    return self.eq(na.a, k);
                }
                Op::Sub if cb == 0 => return self.eq(na.a, na.b),
                Op::Xor if cb == 0 => return self.eq(na.a, na.b),
                Op::Ite if self.is_c(na.b) || self.is_c(na.c) => {
                    let x = self.eq(na.b, b); let y = self.eq(na.c, b);
                    return self.ite(na.a, x, y);
                }
                _ => {
                    if cb > self.umax(a, 6) { return self.ff(); }
                }
            }
            return self.mk(Op::Eq, 1, a, b, 0, 0);
        }
        let nb = *self.n(b);
        if w == 1 { let x = self.xor(a, b); return self.not(x); }
        if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
        if na.op == Op::Add && self.is_c(na.b) {
            if na.a == b { return self.ff(); }
            if nb.op == Op::Add && self.is_c(nb.b) {
                if na.a == nb.a { return self.ff(); }
                let d = self.sub(nb.b, na.b);
                let t = self.add(nb.a, d);
                return self.eq(na.a, t);
            }
        }
        if nb.op == Op::Add && self.is_c(nb.b) && nb.a == a { return self.ff(); }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.eq(na.b, nb.b); let y = self.eq(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        if na.op == Op::Ite && (na.b == b || na.c == b) {
            let x = self.eq(na.b, b); let y = self.eq(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && (nb.b == a || nb.c == a) {
            let x = self.eq(a, nb.b); let y = self.eq(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let x = self.eq(na.a, nb.a); let y = self.eq(na.b, nb.b);
            return self.and(x, y);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    /// upper bound of the unsigned value
    pub fn umax(&self, e: E, d: u32) -> u128 {
        let n = self.n(e);
        let m = mask(n.w);
        if d == 0 { return m; }
        match n.op {
            Op::Const => n.imm,
            Op::Zext => self.umax(n.a, d - 1),
            Op::And => self.umax(n.a, d - 1).min(self.umax(n.b, d - 1)),
            Op::Ite => self.umax(n.b, d - 1).max(self.umax(n.c, d - 1)),
            Op::Concat => { let wl = self.w(n.b); self.umax(n.a, d - 1) << wl | self.umax(n.b, d - 1) }
            Op::Add => match self.umax(n.a, d - 1).checked_add(self.umax(n.b, d - 1)) { Some(x) if x <= m => x, _ => m },
            Op::LShr | Op::UDiv => self.umax(n.a, d - 1),
            Op::URem => { if let Some(k) = self.cv(n.b) { if k > 0 { return k - 1; } } m }
            _ => m,
        }
    }
    pub fn umin(&self, e: E, d: u32) -> u128 {
        let n = self.n(e);
        if d == 0 { return 0; }
        match n.op {
            Op::Const => n.imm,
            Op::Zext => self.umin(n.a, d - 1),
            Op::Ite => self.umin(n.b, d - 1).min(self.umin(n.c, d - 1)),
            Op::Concat => { let wl = self.w(n.b); self.umin(n.a, d - 1) << wl | self.umin(n.b, d - 1) }
            Op::Or => self.umin(n.a, d - 1).max(self.umin(n.b, d - 1)),
            Op::Add => match self.umax(n.a, d - 1).checked_add(self.umax(n.b, d - 1)) { Some(x) if x <= mask(n.w) => self.umin(n.a, d - 1) + self.umin(n.b, d - 1), _ => 0 },
            _ => 0,
        }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.ff(); }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.bool(x < y); }
        if self.umax(a, 8) < self.umin(b, 8) { return self.tt(); }
        if self.umin(a, 8) >= self.umax(b, 8) { return self.ff(); }
        if self.cv(b) == Some(1) { let z = self.konst(w, 0); return self.eq(a, z); }
        if self.cv(a) == Some(0) { let z = self.konst(w, 0); let e = self.eq(b, z); return self.not(e); }
        if w == 1 { let x = self.not(a); return self.and(x, b); }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Zext {
            let iw = self.w(na.a);
            if let Some(y) = self.cv(b) { let k = self.konst(iw, y); return self.ult(na.a, k); }
            if nb.op == Op::Zext && self.w(nb.a) == iw { return self.ult(na.a, nb.a); }
        }
        if nb.op == Op::Zext { if let Some(x) = self.cv(a) { let iw = self.w(nb.a); let k = self.konst(iw, x); return self.ult(k, nb.a); } }
        if na.op == Op::Ite && self.is_c(b) && (self.is_c(na.b) || self.is_c(na.c)) {
            let x = self.ult(na.b, b); let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && self.is_c(a) && (self.is_c(nb.b) || self.is_c(nb.c)) {
            let x = self.ult(a, nb.b); let y = self.ult(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.ff(); }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.bool(sx(x, w) < sx(y, w)); }
        let half = 1u128 << (w - 1);
        if self.umax(a, 8) < half && self.umax(b, 8) < half { return self.ult(a, b); }
        if self.cv(b) == Some(0) { return self.ext(a, w - 1, 1); }
        if self.cv(a) == Some(mask(w)) { let s = self.ext(b, w - 1, 1); return self.not(s); }
        let na = *self.n(a);
        if na.op == Op::Ite && self.is_c(b) && (self.is_c(na.b) || self.is_c(na.c)) {
            let x = self.slt(na.b, b); let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E { let x = self.slt(b, a); self.not(x) }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(k) = self.cv(c) { return if k == 1 { a } else { b }; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = *self.n(c);
        if nc.op == Op::Xor && self.is_c(nc.b) { return self.ite(nc.a, b, a); }
        if w == 1 {
            if let Some(k) = self.cv(a) { return if k == 1 { self.or(c, b) } else { let x = self.not(c); self.and(x, b) }; }
            if let Some(k) = self.cv(b) { return if k == 1 { let x = self.not(c); self.or(x, a) } else { self.and(c, a) }; }
            if a == c { return self.or(c, b); }
            if b == c { return self.and(c, a); }
        }
        let na = *self.n(a);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = *self.n(b);
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Op::Ite && nb.b == a { let d = self.or(c, nb.a); return self.ite(d, a, nb.c); }
        if nb.op == Op::Ite && nb.c == a { let x = self.not(c); let d = self.and(x, nb.a); return self.ite(d, nb.b, a); }
        if na.op == Op::Ite && na.b == b { let x = self.not(na.a); let d = self.and(c, x); return self.ite(d, na.c, b); }
        if na.op == Op::Ite && na.c == b { let d = self.and(c, na.a); return self.ite(d, na.b, b); }
        if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn select(&mut self, arr: E, idx: E) -> E {
        let mut a = arr;
        loop {
            let n = *self.n(a);
            match n.op {
                Op::AConst => return self.konst(8, n.imm),
                Op::AStore => {
                    if n.b == idx { return n.c; }
                    match self.distinct(n.b, idx) { true => { a = n.a; continue; } false => break }
                }
                Op::Ite => {
                    if let Some(r) = self.selmemo.get(&(a, idx)) { return *r; }
                    let x = self.select(n.b, idx); let y = self.select(n.c, idx);
                    let r = self.ite(n.a, x, y);
                    self.selmemo.insert((a, idx), r);
                    return r;
                }
                _ => break,
            }
        }
        self.mk(Op::Select, 8, a, idx, 0, 0)
    }
    pub fn distinct(&mut self, a: E, b: E) -> bool { let e = self.eq(a, b); self.cv(e) == Some(0) }
    pub fn store(&mut self, arr: E, idx: E, v: E) -> E {
        let n = *self.n(arr);
        if n.op == Op::AStore && n.b == idx { return self.store(n.a, idx, v); }
        if n.op == Op::AConst { if let Some(k) = self.cv(v) { if k == n.imm { return arr; } } }
        let s = *self.n(v);
        if s.op == Op::Select && s.a == arr && s.b == idx { return arr; }
        self.mk(Op::AStore, 0, arr, idx, v, 0)
    }
    /// number of low bits known to be zero
    pub fn tz(&self, e: E, d: u32) -> u32 {
        let n = self.n(e);
        if d == 0 { return 0; }
        match n.op {
            Op::Const => if n.imm == 0 { n.w as u32 } else { n.imm.trailing_zeros() },
            Op::Concat => { let wl = self.w(n.b) as u32; let t = self.tz(n.b, d - 1); if t >= wl { wl + self.tz(n.a, d - 1) } else { t } }
            Op::Zext => { let t = self.tz(n.a, d - 1); if t >= self.w(n.a) as u32 { n.w as u32 } else { t } }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a, d - 1).min(self.tz(n.b, d - 1)),
            Op::Mul => (self.tz(n.a, d - 1) + self.tz(n.b, d - 1)).min(n.w as u32),
            Op::Ite => self.tz(n.b, d - 1).min(self.tz(n.c, d - 1)),
            _ => 0,
        }
    }
}
