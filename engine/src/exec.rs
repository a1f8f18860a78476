//! Symbolic execution of the compiled code: generates the verification conditions and discharges them.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val { S(E), V(Rc<Vec<E>>), A(Rc<Vec<Val>>), N }

#[derive(Clone)]
pub enum Any { S(E, u16), M(u32, u64, Vec<E>, Option<E>) }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, E>>,
    pub model: Rc<RefCell<Model>>,
    pub anys: Rc<Vec<Any>>,
    pub panics_ok: bool,
    pub stack: Rc<Stk>,
}
pub struct Stk(pub Option<(Rc<str>, Rc<Stk>)>);

pub struct Failure { pub name: String, pub detail: String, pub replay: String, pub stack: Vec<String> }

#[derive(Default, Clone)]
pub struct Obl { pub checked: u64, pub discharged: u64, pub failed: u64, pub unknown: u64 }

pub struct Cfg { pub max_steps: u64, pub deadline: Instant, pub verbose: bool, pub max_fail: usize, pub seed: u64, pub nomerge: Vec<String> }

pub struct Engine {
    pub m: Module,
    pub cx: Ctx,
    pub smt: Smt,
    bodies: HashMap<Rc<str>, Rc<Body>>,
    gids: HashMap<Rc<str>, u32>,
    gnames: Vec<Rc<str>>,
    ginit: HashMap<u32, Rc<Obj>>,
    faddr: HashMap<Rc<str>, u64>,
    fnames: Vec<Rc<str>>,
    pub cfg: Cfg,
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub paths_end: u64,
    pub obls: BTreeMap<String, Obl>,
    pub covers: BTreeMap<String, u64>,
    pub implicit: Obl,
    pub failures: Vec<Failure>,
    pub undecided: Vec<String>,
    pub called: BTreeMap<String, u64>,
    pub prof: HashMap<Rc<str>, u64>,
    errno: u32,
    /// targets of relative pointers in constant tables
    rels: Vec<u64>,
}

pub struct Abort(pub String);
type X<T> = Result<T, Abort>;
fn ab<T>(s: impl Into<String>) -> X<T> { Err(Abort(s.into())) }

/// stands for a relative pointer
const REL: u32 = 0x8abc_0000;
/// paths of one call beyond which they are merged at every join
const JOIN_LIMIT: usize = 600;
struct Fr { st: State, regs: Vec<Val>, blk: u32, ip: usize, allocas: Vec<u32>, loops: Vec<(u32, u32)> }

/// control flow of one function: order of the blocks, joins, and the loops every block is in
pub struct Cfgr { rpo: Vec<u32>, join: Vec<bool>, nest: Vec<Vec<u32>> }
fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last().map(|i| &i.i) {
        Some(I::Br(a)) => vec![*a],
        Some(I::CondBr(_, a, b)) => vec![*a, *b],
        Some(I::Switch(_, _, d, v)) => { let mut r = vec![*d]; r.extend(v.iter().map(|x| x.1)); r }
        _ => vec![],
    }
}
impl Cfgr {
    fn new(body: &Body) -> Cfgr {
        let n = body.blocks.len();
        let sc: Vec<Vec<u32>> = body.blocks.iter().map(succs).collect();
        let mut post = vec![];
        let mut seen = vec![false; n];
        let mut stk = vec![(0u32, 0usize)];
        if n > 0 { seen[0] = true; }
        while let Some((b, k)) = stk.pop() {
            if k < sc[b as usize].len() {
                stk.push((b, k + 1));
                let t = sc[b as usize][k];
                if !seen[t as usize] { seen[t as usize] = true; stk.push((t, 0)); }
            } else { post.push(b); }
        }
        let mut rpo = vec![u32::MAX; n];
        let order: Vec<u32> = post.iter().rev().copied().collect();
        for (i, b) in order.iter().enumerate() { rpo[*b as usize] = i as u32; }
        let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
        for b in &order { for t in &sc[*b as usize] { preds[*t as usize].push(*b); } }
        // dominators
        let mut idom = vec![u32::MAX; n];
        if n > 0 { idom[0] = 0; }
        let mut ch = true;
        while ch {
            ch = false;
            for &b in order.iter().skip(1) {
                let mut d = u32::MAX;
                for &p in &preds[b as usize] {
                    if idom[p as usize] == u32::MAX { continue; }
                    if d == u32::MAX { d = p; continue; }
                    let (mut x, mut y) = (p, d);
                    while x != y {
                        while rpo[x as usize] > rpo[y as usize] { x = idom[x as usize]; }
                        while rpo[y as usize] > rpo[x as usize] { y = idom[y as usize]; }
                    }
                    d = x;
                }
                if idom[b as usize] != d { idom[b as usize] = d; ch = true; }
            }
        }
        // natural loops, outermost first
        let mut nest = vec![vec![]; n];
        for &h in &order {
            let back: Vec<u32> = preds[h as usize].iter().copied().filter(|&p| { let mut x = p; loop { if x == h { break true } if x == 0 { break false } x = idom[x as usize]; } }).collect();
            if back.is_empty() { continue; }
            let mut inl = vec![false; n];
            inl[h as usize] = true;
            let mut st = back;
            while let Some(b) = st.pop() { if !inl[b as usize] { inl[b as usize] = true; st.extend(preds[b as usize].iter().copied()); } }
            for b in 0..n { if inl[b] { nest[b].push(h); } }
        }
        Cfgr { rpo, join: preds.iter().map(|p| p.len() > 1).collect(), nest }
    }
    fn enter(&self, loops: &mut Vec<(u32, u32)>, b: u32) {
        let nest = &self.nest[b as usize];
        while let Some((h, _)) = loops.last() { if nest.contains(h) { break } loops.pop(); }
        if nest.last() == Some(&b) {
            match loops.last_mut() { Some((h, k)) if *h == b => *k += 1, _ => loops.push((b, 1)) }
        }
    }
    fn key(&self, f: &Fr) -> Vec<u32> {
        let mut k = vec![];
        for (h, n) in &f.loops { k.push(self.rpo[*h as usize]); k.push(*n); }
        k.push(self.rpo[f.blk as usize]);
        k.push(f.ip as u32);
        k
    }
}

enum Acc { At(u32, E), Fork(E), Bad(String) }
enum Step { Next, Jump(u32), Ret(Val), Fork(E), Dead }

impl Engine {
    pub fn new(m: Module, cfg: Cfg) -> Engine {
        let mut gn: Vec<Rc<str>> = m.globals.keys().cloned().collect();
        gn.sort();
        let gids = gn.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
        let mut fnames: Vec<Rc<str>> = m.funcs.keys().cloned().collect();
        fnames.sort();
        let faddr = fnames.iter().enumerate().map(|(i, n)| (n.clone(), 0x4000_0000_0000_0000 + (i as u64) * 16)).collect();
        Engine { m, cx: Ctx::default(), smt: Smt::new(), bodies: HashMap::new(), gids, gnames: gn, ginit: HashMap::new(), faddr, fnames, cfg, steps: 0, forks: 0, merges: 0,
            paths_end: 0, obls: BTreeMap::new(), covers: BTreeMap::new(), implicit: Obl::default(), failures: vec![], undecided: vec![], called: BTreeMap::new(), prof: HashMap::new(), errno: 0, rels: vec![] }
    }
    pub fn run(&mut self, f: &str) -> X<()> {
        let floor = self.gnames.len() as u32;
        let st = State { mem: Mem::new(floor), pc: vec![], known: Rc::new(HashMap::new()), model: Rc::new(RefCell::new(Model::default())), anys: Rc::new(vec![]), panics_ok: false, stack: Rc::new(Stk(None)) };
        let name: Rc<str> = f.into();
        if !self.m.funcs.contains_key(&name) { return ab(format!("no function {f}")); }
        let r = self.call(st, &name, vec![], 0)?;
        self.paths_end += r.len() as u64;
        Ok(())
    }

    // ---------- constants and globals ----------
    fn gobj(&mut self, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.ginit.get(&id) { return Ok(o.clone()); }
        let name = self.gnames[id as usize].clone();
        let (ty, init, constant) = { let g = &self.m.globals[&name]; (g.ty.clone(), g.init.clone(), g.constant) };
        let mut o = Obj::new(&mut self.cx, ty.size(), Some(0));
        if let Some(c) = init {
            let mut bytes = vec![];
            self.cbytes(&c, &ty, &mut bytes)?;
            if o.size < 4096 {
                if o.size > 0 { o.segs[0].d = SegD::Bytes(Rc::new(bytes)); }
            } else {
                o.segs[0].d = SegD::Bytes(Rc::new(bytes));
                if !constant { o.to_arr(&mut self.cx, 0); }
            }
        }
        o.ro = constant;
        let o = Rc::new(o);
        self.ginit.insert(id, o.clone());
        Ok(o)
    }
    fn cbytes(&mut self, c: &C, ty: &Ty, out: &mut Vec<E>) -> X<()> {
        let start = out.len();
        match c {
            C::Str(s) => for b in s.iter() { let e = self.cx.konst(8, *b as u128); out.push(e) },
            C::Zero(t) => { let z = self.cx.konst(8, 0); for _ in 0..t.size() { out.push(z) } }
            C::Undef(t) => { let z = self.cx.undef(8); for _ in 0..t.size() { out.push(z) } }
            C::Agg(v, t) => {
                let z = self.cx.konst(8, 0);
                for (i, (ft, fc)) in v.iter().enumerate() {
                    let (o, _) = t.field(i as u64);
                    while out.len() < start + o as usize { out.push(z) }
                    self.cbytes(fc, ft, out)?;
                }
                while out.len() < start + t.size() as usize { out.push(z) }
            }
            _ => { let v = self.cval(c, ty)?; let b = self.to_bytes(&v, ty)?; out.extend(b); }
        }
        Ok(())
    }
    fn cval(&mut self, c: &C, ty: &Ty) -> X<Val> {
        Ok(match c {
            C::Int(w, v) => Val::S(self.cx.konst(*w, *v)),
            C::Null => Val::S(self.cx.k64(0)),
            C::Undef(t) => self.fill(t, false)?,
            C::Zero(t) => self.fill(t, true)?,
            C::Global(g) => {
                if let Some(a) = self.faddr.get(g) { let a = *a;
                    Val::S(self.cx.k64(a)) }
                else if let Some(id) = self.gids.get(g) {
                    if self.m.globals[g].weak { return Ok(Val::S(self.cx.k64(0))); }
                    let a = base(*id); Val::S(self.cx.k64(a)) }
                else { return ab(format!("unknown global {g}")); }
            }
            C::Agg(v, t) => {
                let mut o = vec![];
                for (ft, fc) in v.iter() { o.push(self.cval(fc, ft)?); }
                if let Ty::Vec(..) = t { Val::V(Rc::new(o.iter().map(|x| self.s(x)).collect())) } else { Val::A(Rc::new(o)) }
            }
            C::Str(s) => {
                let v: Vec<E> = s.iter().map(|b| self.cx.konst(8, *b as u128)).collect();
                if let Ty::Vec(..) = ty { Val::V(Rc::new(v)) } else { Val::A(Rc::new(v.into_iter().map(Val::S).collect())) }
            }
            C::Gep(t, b, ix) => {
                let bv = self.cval(b, &Ty::Ptr)?;
                let mut iv = vec![];
                for i in ix.iter() { let v = self.cval(i, &Ty::Int(64))?; iv.push(v); }
                self.gep(t, bv, iv)?
            }
            C::Cast(a, to) => {
                if let (Ty::Int(32), C::Bin(op, t, _)) = (to, &**a) { if &**op == "sub" {
                    // offset of a pointer relative to its table: only load.relative can use it
                    let t = self.cval(t, &Ty::Int(64))?;
                    let t = self.s(&t);
                    let Some(t) = self.cx.cv(t) else { return ab("relative pointer") };
                    let k = self.rels.iter().position(|x| *x == t as u64).unwrap_or_else(|| { self.rels.push(t as u64); self.rels.len() - 1 });
                    return Ok(Val::S(self.cx.konst(32, REL as u128 + k as u128)));
                } }
                let v = self.cval(a, &Ty::Int(64))?;
                let e = self.s(&v);
                let w = to.bits() as u16;
                let ew = self.cx.w(e);
                Val::S(if w == ew { e } else if w < ew { self.cx.ext(e, 0, w) } else { self.cx.zext(e, w) })
            }
            C::Bin(op, a, b) => {
                let x = self.cval(a, &Ty::Int(64))?; let y = self.cval(b, &Ty::Int(64))?;
                let (x, y) = (self.s(&x), self.s(&y));
                Val::S(self.bin(op, x, y)?)
            }
        })
    }
    /// the pointers that a value loaded from a table of relative pointers stands for
    fn relative(&mut self, v: E) -> Option<E> {
        if let Some(k) = self.cx.cv(v) {
            let t = *self.rels.get((k as u32).wrapping_sub(REL) as usize)?;
            return Some(self.cx.k64(t));
        }
        let n = *self.cx.n(v);
        if n.op != Op::Ite { return None; }
        let (a, b) = (self.relative(n.b)?, self.relative(n.c)?);
        Some(self.cx.ite(n.a, a, b))
    }
    fn fill(&mut self, t: &Ty, zero: bool) -> X<Val> {
        Ok(match t {
            Ty::Int(w) => Val::S(if zero { self.cx.konst(*w, 0) } else { self.cx.undef(*w) }),
            Ty::Ptr => Val::S(if zero { self.cx.k64(0) } else { self.cx.undef(64) }),
            Ty::Vec(n, e) => { let x = self.fill(e, zero)?; let x = self.s(&x); Val::V(Rc::new(vec![x; *n as usize])) }
            Ty::Struct(f, _) => { let mut v = vec![]; for t in f.iter() { v.push(self.fill(t, zero)?) } Val::A(Rc::new(v)) }
            Ty::Arr(n, e) => { let x = self.fill(e, zero)?; Val::A(Rc::new(vec![x; *n as usize])) }
            Ty::Void => Val::N,
            Ty::Other(s) => return ab(format!("type {s}")),
        })
    }
    fn s(&self, v: &Val) -> E { match v { Val::S(e) => *e, _ => panic!("scalar expected: {v:?}") } }
    fn sx(&self, v: &Val) -> X<E> { match v { Val::S(e) => Ok(*e), _ => ab("scalar expected") } }

    // ---------- values <-> bytes ----------
    fn to_bytes(&mut self, v: &Val, ty: &Ty) -> X<Vec<E>> {
        Ok(match (v, ty) {
            (Val::S(e), _) => {
                let n = ty.store_size() as u16;
                let w = self.cx.w(*e);
                let e = if w == n * 8 { *e } else { self.cx.zext(*e, n * 8) };
                (0..n).map(|i| self.cx.ext(e, i * 8, 8)).collect()
            }
            (Val::V(l), Ty::Vec(_, et)) => { let mut o = vec![]; for x in l.iter() { o.extend(self.to_bytes(&Val::S(*x), et)?) } o }
            (Val::A(f), t) => {
                let mut o = vec![];
                let u = self.cx.undef(8);
                for (i, x) in f.iter().enumerate() {
                    let (off, ft) = t.field(i as u64);
                    while o.len() < off as usize { o.push(u) }
                    o.extend(self.to_bytes(x, &ft)?);
                }
                while o.len() < t.size() as usize { o.push(u) }
                o
            }
            _ => return ab("to_bytes"),
        })
    }
    fn from_bytes(&mut self, b: &[E], ty: &Ty) -> X<Val> {
        Ok(match ty {
            Ty::Int(_) | Ty::Ptr => {
                let w = ty.bits() as u16;
                let mut acc = b[b.len() - 1];
                for x in b[..b.len() - 1].iter().rev() { acc = self.cx.concat(acc, *x); }
                Val::S(self.cx.ext(acc, 0, w))
            }
            Ty::Vec(n, et) => {
                let s = et.size() as usize;
                let mut v = vec![];
                for i in 0..*n as usize { let x = self.from_bytes(&b[i * s..(i + 1) * s], et)?; v.push(self.s(&x)); }
                Val::V(Rc::new(v))
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = vec![];
                for i in 0..ty.len() { let (o, ft) = ty.field(i); v.push(self.from_bytes(&b[o as usize..(o + ft.store_size()) as usize], &ft)?); }
                Val::A(Rc::new(v))
            }
            _ => return ab("from_bytes"),
        })
    }

    // ---------- arithmetic ----------
    fn bin(&mut self, op: &str, a: E, b: E) -> X<E> {
        let w = self.cx.w(a);
        let c = &mut self.cx;
        Ok(match op {
            "add" => if w == 1 { c.xor(a, b) } else { c.add(a, b) },
            "sub" => if w == 1 { c.xor(a, b) } else { c.sub(a, b) },
            "mul" => if w == 1 { c.and(a, b) } else { c.mul(a, b) },
            "and" => c.and(a, b),
            "or" => c.or(a, b),
            "xor" => c.xor(a, b),
            "shl" => c.shl(a, b),
            "lshr" => c.lshr(a, b),
            "ashr" => c.ashr(a, b),
            "udiv" => c.divop(Op::UDiv, a, b),
            "sdiv" => c.divop(Op::SDiv, a, b),
            "urem" => c.divop(Op::URem, a, b),
            "srem" => c.divop(Op::SRem, a, b),
            _ => return ab(format!("binop {op}")),
        })
    }
    fn cmp(&mut self, p: &str, a: E, b: E) -> X<E> {
        let c = &mut self.cx;
        Ok(match p {
            "eq" => c.eq(a, b),
            "ne" => { let x = c.eq(a, b); c.not(x) }
            "ult" => c.ult(a, b),
            "ule" => c.ule(a, b),
            "ugt" => c.ult(b, a),
            "uge" => c.ule(b, a),
            "slt" => c.slt(a, b),
            "sle" => c.sle(a, b),
            "sgt" => c.slt(b, a),
            "sge" => c.sle(b, a),
            _ => return ab(format!("icmp {p}")),
        })
    }
    fn gep(&mut self, t: &Ty, b: Val, ix: Vec<Val>) -> X<Val> {
        let mut p = self.sx(&b)?;
        let mut cur = t.clone();
        for (k, i) in ix.iter().enumerate() {
            let i = self.sx(i)?;
            let i64_ = if self.cx.w(i) < 64 { self.cx.sext(i, 64) } else { i };
            if k == 0 {
                let s = self.cx.k64(t.size());
                let o = self.cx.mul(i64_, s);
                p = self.cx.add(p, o);
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let Some(f) = self.cx.cv(i64_) else { return ab("gep field") };
                        let (o, ft) = cur.field(f as u64);
                        let o = self.cx.k64(o);
                        p = self.cx.add(p, o);
                        cur = ft;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                        let s = self.cx.k64(e.size());
                        let o = self.cx.mul(i64_, s);
                        p = self.cx.add(p, o);
                        cur = (**e).clone();
                    }
                    _ => return ab("gep"),
                }
            }
        }
        Ok(Val::S(p))
    }

    // ---------- solver glue ----------
    fn tick(&mut self) -> X<()> { if Instant::now() > self.cfg.deadline { ab("time limit") } else { Ok(()) } }
    /// rewrite a condition under the path's known equalities and literals
    fn under(&mut self, st: &State, c: E) -> E {
        if self.cx.is_c(c) { return c; }
        let mut memo = HashMap::new();
        let mut budget = 400;
        self.rw(st, c, &mut memo, &mut budget)
    }
    fn rw(&mut self, st: &State, e: E, memo: &mut HashMap<E, E>, budget: &mut i32) -> E {
        if let Some(k) = st.known.get(&e) { return *k; }
        if let Some(k) = memo.get(&e) { return *k; }
        *budget -= 1;
        if *budget < 0 { return e; }
        let n = *self.cx.n(e);
        macro_rules! r { ($x:expr) => { self.rw(st, $x, memo, budget) } }
        let v = match n.op {
            Op::And => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.and(a, b) } }
            Op::Or => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.or(a, b) } }
            Op::Xor => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.xor(a, b) } }
            Op::Eq => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.eq(a, b) } }
            Op::Ult => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.ult(a, b) } }
            Op::Slt => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.slt(a, b) } }
            Op::Ite if n.w > 0 => { let c = r!(n.a); if let Some(k) = self.cx.cv(c) { if k == 1 { r!(n.b) } else { r!(n.c) } } else { let a = r!(n.b); let b = r!(n.c); if c == n.a && a == n.b && b == n.c { e } else { self.cx.ite(c, a, b) } } }
            Op::Zext => { let a = r!(n.a); if a == n.a { e } else { self.cx.zext(a, n.w) } }
            Op::Sext => { let a = r!(n.a); if a == n.a { e } else { self.cx.sext(a, n.w) } }
            Op::Ext => { let a = r!(n.a); if a == n.a { e } else { self.cx.ext(a, n.imm as u16, n.w) } }
            Op::Concat => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.concat(a, b) } }
            Op::Add => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.add(a, b) } }
            Op::Sub => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.sub(a, b) } }
            Op::Shl => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.shl(a, b) } }
            Op::LShr => { let a = r!(n.a); let b = r!(n.b); if a == n.a && b == n.b { e } else { self.cx.lshr(a, b) } }
            _ => e,
        };
        let v = st.known.get(&v).copied().unwrap_or(v);
        memo.insert(e, v);
        v
    }
    fn learn(&mut self, st: &mut State, c: E, pos: bool) {
        let n = *self.cx.n(c);
        let k = self.cx.bool(pos);
        Rc::make_mut(&mut st.known).insert(c, k);
        if pos {
            match n.op {
                Op::Eq if self.cx.is_c(n.b) => {
                    Rc::make_mut(&mut st.known).insert(n.a, n.b);
                    self.learn_val(st, n.a, n.b);
                }
                Op::And => { self.learn(st, n.a, true); self.learn(st, n.b, true); }
                Op::Xor if self.cx.is_c(n.b) => self.learn(st, n.a, false),
                _ => {}
            }
        } else {
            match n.op {
                Op::Or => { self.learn(st, n.a, false); self.learn(st, n.b, false); }
                Op::Xor if self.cx.is_c(n.b) => self.learn(st, n.a, true),
                _ => {}
            }
        }
    }
    fn learn_val(&mut self, st: &mut State, a: E, k: E) {
        let n = *self.cx.n(a);
        match n.op {
            Op::Zext => { let iw = self.cx.w(n.a); let kk = self.cx.ext(k, 0, iw); Rc::make_mut(&mut st.known).insert(n.a, kk); self.learn_val(st, n.a, kk); }
            Op::Concat => {
                let wl = self.cx.w(n.b); let wh = self.cx.w(n.a);
                let kl = self.cx.ext(k, 0, wl); let kh = self.cx.ext(k, wl, wh);
                if !self.cx.is_c(n.b) { Rc::make_mut(&mut st.known).insert(n.b, kl); self.learn_val(st, n.b, kl); }
                if !self.cx.is_c(n.a) { Rc::make_mut(&mut st.known).insert(n.a, kh); self.learn_val(st, n.a, kh); }
            }
            _ => {}
        }
    }
    fn assume(&mut self, st: &mut State, c: E) {
        if self.cx.cv(c) == Some(1) { return; }
        st.pc.push(c);
        self.learn(st, c, true);
    }
    /// is c satisfiable together with the path condition? (updates nothing)
    fn sat(&mut self, st: &State, c: E) -> X<(Res, Option<Rc<RefCell<Model>>>)> {
        if let Some(k) = self.cx.cv(c) { return Ok(if k == 0 { (Res::Unsat, None) } else { (Res::Sat, Some(st.model.clone())) }); }
        if st.model.borrow_mut().eval(&self.cx, c) == 1 { return Ok((Res::Sat, Some(st.model.clone()))); }
        self.tick()?;
        let (r, m) = self.smt.check(&mut self.cx, &st.pc, c, true);
        Ok((r, m.map(|m| Rc::new(RefCell::new(m)))))
    }

    // ---------- memory ----------
    fn resolve(&mut self, st: &State, p: E) -> Acc {
        let p = st.known.get(&p).copied().unwrap_or(p);
        if self.cx.is_c(p) { return self.resolve0(p); }
        match self.resolve0(p) {
            Acc::Fork(_) => { let p = self.under(st, p); self.resolve0(p) }
            a => a,
        }
    }
    fn resolve0(&mut self, p: E) -> Acc {
        let n = *self.cx.n(p);
        match n.op {
            Op::Const => match split_addr(n.imm as u64) {
                Some((id, off)) => { let o = self.cx.k64(off as u64); Acc::At(id, o) }
                None => Acc::Bad(format!("access to invalid address {:#x}", n.imm)),
            },
            Op::Ite => match (self.resolve0(n.b), self.resolve0(n.c)) {
                // both alternatives lie in the same object
                (Acc::At(i, x), Acc::At(j, y)) if i == j => Acc::At(i, self.cx.ite(n.a, x, y)),
                _ => Acc::Fork(n.a),
            },
            Op::Add => {
                if let Some(k) = self.cx.cv(n.b) {
                    if let Some((id, off)) = split_addr(k as u64) { let o = self.cx.k64(off as u64); let o = self.cx.add(n.a, o); return Acc::At(id, o); }
                }
                self.inner_ite(p)
            }
            Op::Zext | Op::Ext | Op::Concat => self.inner_ite(p),
            _ => Acc::Bad(format!("unresolved pointer ({:?})", n.op)),
        }
    }
    /// split on an alternative inside a pointer
    fn inner_ite(&mut self, p: E) -> Acc {
        let mut todo = vec![p];
        while let Some(x) = todo.pop() {
            let m = *self.cx.n(x);
            match m.op {
                Op::Add | Op::Concat => { todo.push(m.b); todo.push(m.a); }
                Op::Zext | Op::Ext => todo.push(m.a),
                Op::Ite => return Acc::Fork(m.a),
                _ => {}
            }
        }
        Acc::Bad(format!("unresolved symbolic pointer {}", self.show(p, 4)))
    }
    fn obj(&mut self, st: &State, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = st.mem.get(id) { return Ok(o.clone()); }
        if (id as usize) < self.gnames.len() { return self.gobj(id); }
        ab(format!("access to dead object {id}"))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> X<Rc<Obj>> {
        if (id as usize) < self.gnames.len() && st.mem.get(id).is_none() { return self.gobj(id); }
        match st.mem.take(id) { Some(o) => Ok(o), None => ab(format!("write to dead object {id}")) }
    }
    /// prove off in [0, size-n] and choose the segment; returns (segment index, segment-relative offset)
    fn bound(&mut self, st: &State, o: &Obj, off: E, n: u64) -> X<(usize, E)> {
        if n > o.size { return ab(format!("access of {n} bytes to an object of {}", o.size)); }
        if let Some(k) = self.cx.cv(off) {
            let k = k as u64;
            if k > o.size - n { return ab(format!("memory access out of bounds: offset {k}, {n} bytes, object of {} bytes", o.size)); }
            let s = o.seg_at(k).unwrap_or(0);
            let r = self.cx.k64(k - o.segs[s].start);
            return Ok((s, r));
        }
        let nd = *self.cx.n(off);
        let cpart = if nd.op == Op::Add { self.cx.cv(nd.b).unwrap_or(0) as u64 } else { 0 };
        let s = o.seg_at(cpart).or_else(|| o.seg_at(0)).unwrap();
        let sg = &o.segs[s];
        let (start, len) = (sg.start, sg.len);
        let k = self.cx.k64((start as i64).wrapping_neg() as u64);
        let rel = self.cx.add(off, k);
        if n > len { return ab("symbolic access crosses segments"); }
        let lim = self.cx.k64(len - n);
        let oob = self.cx.ult(lim, rel);
        let oob = self.under(st, oob);
        match self.sat(st, oob)?.0 {
            Res::Unsat => { self.implicit.checked += 1; self.implicit.discharged += 1; Ok((s, rel)) }
            Res::Sat => ab("symbolic memory access may be out of bounds (or crosses segments)"),
            Res::Unknown => ab("bounds of a symbolic access undecided"),
        }
    }
    fn candidates(&mut self, rel: E, len: u64, n: u64) -> Option<Vec<u64>> {
        let tz = self.cx.tz(rel, 12).min(12);
        let step = 1u64 << tz;
        let mx = self.cx.umax(rel, 12).min((len - n) as u128) as u64;
        let mn = self.cx.umin(rel, 12) as u64;
        let mn = (mn + step - 1) / step * step;
        if mn > mx { return None; }
        if (mx - mn) / step + 1 > 80 { return None; }
        Some((0..=(mx - mn) / step).map(|i| mn + i * step).collect())
    }
    fn read(&mut self, st: &mut State, id: u32, off: E, n: u64) -> X<Vec<E>> {
        if n == 0 { return Ok(vec![]); }
        let o = self.obj(st, id)?;
        if let Some(k) = self.cx.cv(off) {
            self.bound(st, &o, off, n)?;
            let k = k as u64;
            return Ok((0..n).map(|i| o.read_const(&mut self.cx, k + i)).collect());
        }
        let (s, rel) = self.bound(st, &o, off, n)?;
        let len = o.segs[s].len;
        match &o.segs[s].d {
            SegD::Bytes(b) => {
                if let Some(cs) = self.candidates(rel, len, n) {
                    let last = *cs.last().unwrap();
                    let mut acc: Vec<E> = (0..n).map(|i| b[(last + i) as usize]).collect();
                    for c in cs.iter().rev().skip(1) {
                        let k = self.cx.k64(*c);
                        let g = self.cx.eq(rel, k);
                        for i in 0..n as usize { acc[i] = self.cx.ite(g, b[*c as usize + i], acc[i]); }
                    }
                    return Ok(acc);
                }
                let mut oo = (*o).clone();
                let a = oo.to_arr(&mut self.cx, s);
                if !o.ro { st.mem.set(id, Some(Rc::new(oo))); }
                else { self.ginit.insert(id, Rc::new(oo)); }
                Ok(self.asel(a, rel, n))
            }
            SegD::Arr(a) => { let a = *a; Ok(self.asel(a, rel, n)) }
        }
    }
    fn asel(&mut self, a: E, rel: E, n: u64) -> Vec<E> {
        (0..n).map(|i| { let k = self.cx.k64(i); let ix = self.cx.add(rel, k); self.cx.select(a, ix) }).collect()
    }
    fn write(&mut self, st: &mut State, id: u32, off: E, bytes: &[E]) -> X<()> {
        let n = bytes.len() as u64;
        if n == 0 { return Ok(()); }
        let cur = self.obj(st, id)?;
        if cur.ro { return ab("write to constant"); }
        let (mut s, rel) = self.bound(st, &cur, off, n)?;
        let (start, len) = (cur.segs[s].start, cur.segs[s].len);
        drop(cur);
        // a memory image with other fields behind it: keep them apart if the access stays within the image
        let pow = (len + 1).next_power_of_two() / 2;
        if len > 4096 && len != pow && len - pow < 4096 && self.cx.cv(off).is_none() {
            let lim = self.cx.k64(pow - n);
            let out = self.cx.ult(lim, rel);
            let out = self.under(st, out);
            if matches!(self.sat(st, out)?.0, Res::Unsat) {
                let mut o = (*self.obj(st, id)?).clone();
                o.carve(&mut self.cx, start, pow);
                s = o.seg_at(start).unwrap();
                st.mem.set(id, Some(Rc::new(o)));
            }
        }
        let mut o = self.obj_mut(st, id)?;
        {
            let om = Rc::make_mut(&mut o);
            if let Some(k) = self.cx.cv(off) {
                for (i, b) in bytes.iter().enumerate() { om.write_const(&mut self.cx, k as u64 + i as u64, *b); }
            } else {
                let len = om.segs[s].len;
                let cs = if let SegD::Bytes(_) = om.segs[s].d { self.candidates(rel, len, n) } else { None };
                if let Some(cs) = cs {
                    let SegD::Bytes(b) = &mut om.segs[s].d else { unreachable!() };
                    let b = Rc::make_mut(b);
                    // later candidates may overlap earlier ones only when step < n; guards are mutually exclusive
                    for c in cs {
                        let k = self.cx.k64(c);
                        let g = self.cx.eq(rel, k);
                        for i in 0..n as usize { b[c as usize + i] = self.cx.ite(g, bytes[i], b[c as usize + i]); }
                    }
                } else {
                    let mut a = om.to_arr(&mut self.cx, s);
                    for (i, b) in bytes.iter().enumerate() { let k = self.cx.k64(i as u64); let ix = self.cx.add(rel, k); a = self.cx.store(a, ix, *b); }
                    om.segs[s].d = SegD::Arr(a);
                }
            }
        }
        st.mem.set(id, Some(o));
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: (u32, E), s: (u32, E), n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        if n >= 1024 {
            let (Some(dk), Some(sk)) = (self.cx.cv(d.1), self.cx.cv(s.1)) else { return ab("large memcpy at a symbolic address") };
            let (dk, sk) = (dk as u64, sk as u64);
            let so = self.obj(st, s.0)?;
            let dd = self.obj(st, d.0)?;
            if sk + n > so.size || dk + n > dd.size { return ab("memcpy out of bounds"); }
            // copy segment by segment
            let mut parts: Vec<(u64, u64, SegD)> = vec![];
            for sg in &so.segs {
                let lo = sg.start.max(sk); let hi = (sg.start + sg.len).min(sk + n);
                if lo >= hi { continue; }
                let data = if lo == sg.start && hi == sg.start + sg.len { sg.d.clone() } else {
                    match &sg.d {
                        SegD::Bytes(b) => SegD::Bytes(Rc::new(b[(lo - sg.start) as usize..(hi - sg.start) as usize].to_vec())),
                        SegD::Arr(a) => { let a = *a; 
                            let sub = if hi - lo >= 4096 { sub_array(&mut self.cx, a, lo - sg.start, hi - lo) } else { None };
                            if let Some(x) = sub { SegD::Arr(x) } else {
                            if hi - lo > 70000 { return ab("partial array copy"); }
                            SegD::Bytes(Rc::new((lo..hi).map(|i| { let k = self.cx.k64(i - sg.start); self.cx.select(a, k) }).collect())) } }
                    }
                };
                parts.push((lo - sk, hi - lo, data));
            }
            let mut o = (*dd).clone();
            for (po, pl, data) in parts {
                o.carve(&mut self.cx, dk + po, pl);
                // merge all segments inside the range into one
                let a = o.segs.iter().position(|s| s.start == dk + po).unwrap();
                let mut b = a;
                let mut l = 0;
                while l < pl { l += o.segs[b].len; b += 1; }
                o.segs.splice(a..b, [Seg { start: dk + po, len: pl, d: data }]);
            }
            st.mem.set(d.0, Some(Rc::new(o)));
            return Ok(());
        }
        let b = self.read(st, s.0, s.1, n)?;
        self.write(st, d.0, d.1, &b)
    }
    fn memset(&mut self, st: &mut State, d: (u32, E), v: E, n: u64) -> X<()> {
        if n >= 1024 {
            let (Some(dk), Some(k)) = (self.cx.cv(d.1), self.cx.cv(v)) else { return ab("large symbolic memset") };
            let dd = self.obj(st, d.0)?;
            let mut o = (*dd).clone();
            let dk = dk as u64;
            if dk + n > o.size { return ab("memset out of bounds"); }
            o.carve(&mut self.cx, dk, n);
            let a = o.segs.iter().position(|s| s.start == dk).unwrap();
            let mut b = a; let mut l = 0;
            while l < n { l += o.segs[b].len; b += 1; }
            let data = if n >= 4096 { SegD::Arr(self.cx.aconst(k as u8)) } else { SegD::Bytes(Rc::new(vec![v; n as usize])) };
            o.segs.splice(a..b, [Seg { start: dk, len: n, d: data }]);
            st.mem.set(d.0, Some(Rc::new(o)));
            return Ok(());
        }
        self.write(st, d.0, d.1, &vec![v; n as usize])
    }

    // ---------- failures ----------
    fn stack_of(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        let mut s = st.stack.clone();
        while let Some((n, up)) = &s.clone().0 { v.push(demangle(n)); s = up.clone(); }
        v
    }
    fn fail(&mut self, st: &State, name: &str, detail: String, m: Option<Rc<RefCell<Model>>>) {
        let replay = match &m { Some(m) => self.replay(st, &mut m.borrow_mut()), None => String::new() };
        let stack = self.stack_of(st);
        if self.cfg.verbose { eprintln!("FAIL {name}: {detail}\n{}", stack.join("\n  ")); }
        self.failures.push(Failure { name: name.into(), detail, replay, stack });
    }
    fn replay(&mut self, st: &State, m: &mut Model) -> String {
        let mut s = String::new();
        for a in st.anys.iter() {
            match a {
                Any::S(e, _) => { let v = m.eval(&self.cx, *e); s.push_str(&format!("s {v}\n")); }
                Any::M(_, len, bytes, arr) => {
                    s.push_str(&format!("m {len}"));
                    if let Some(a) = arr {
                        let id = self.cx.n(*a).imm as u32;
                        if let Some(t) = m.arrs.get(&id) {
                            let mut v: Vec<_> = t.iter().filter(|(i, b)| **i < *len && **b != 0).collect();
                            v.sort();
                            for (i, b) in v { s.push_str(&format!(" {i}:{b}")); }
                        }
                    } else {
                        for (i, e) in bytes.iter().enumerate() { let v = m.eval(&self.cx, *e); if v != 0 { s.push_str(&format!(" {i}:{v}")); } }
                    }
                    s.push('\n');
                }
            }
        }
        s
    }
    fn rstr(&mut self, st: &mut State, p: E, n: u64) -> Option<String> {
        let Acc::At(id, off) = self.resolve(st, p) else { return None };
        let b = self.read(st, id, off, n).ok()?;
        let mut v = vec![];
        for e in b { v.push(self.cx.cv(e)? as u8); }
        Some(String::from_utf8_lossy(&v).into_owned())
    }
    fn location(&mut self, st: &mut State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            let Val::S(p) = a else { continue };
            if self.cx.w(*p) != 64 { continue; }
            let Some(k) = self.cx.cv(*p) else { continue };
            let Some((id, 0)) = split_addr(k as u64) else { continue };
            let Ok(o) = self.obj(st, id) else { continue };
            if o.size != 24 { continue; }
            let rd = |s: &mut Self, off: u64, n: u64| -> Option<u64> { let mut v = 0; for i in 0..n { let e = o.read_const(&mut s.cx, off + i); v |= (s.cx.cv(e)? as u64) << (8 * i); } Some(v) };
            let (Some(fp), Some(fl), Some(line)) = (rd(self, 0, 8), rd(self, 8, 8), rd(self, 16, 4)) else { continue };
            if fl == 0 || fl > 300 { continue; }
            let e = self.cx.k64(fp);
            if let Some(f) = self.rstr(st, e, fl).or_else(|| self.rstr(st, e, fl)) { return format!("{}:{line}", f.trim_end_matches('\0')); }
        }
        String::new()
    }

    // ---------- calls ----------
    fn call(&mut self, st: State, name: &Rc<str>, args: Vec<Val>, depth: u32) -> X<Vec<(State, Val)>> {
        if let Some(r) = self.builtin(st.clone(), name, &args)? { return Ok(r); }
        let f = &self.m.funcs[name];
        if f.text.is_none() { return ab(format!("call of external function {name}")); }
        if f.noreturn && !name.contains("5verif") {
            let mut st = st;
            let loc = self.location(&mut st, &args);
            self.panic_event(&st, name, loc)?;
            return Ok(vec![]);
        }
        if depth > 400 { return ab("call depth"); }
        let body = match self.bodies.get(name) { Some(b) => b.clone(), None => { let b = Rc::new(self.m.body(f).map_err(Abort)?); self.bodies.insert(name.clone(), b.clone()); b } };
        *self.called.entry(name.to_string()).or_default() += 1;
        let mut st = st;
        let up = st.stack.clone();
        st.stack = Rc::new(Stk(Some((name.clone(), up.clone()))));
        let base_len = st.pc.len();
        let mut regs = vec![Val::N; body.nregs];
        let np = self.m.funcs[name].params;
        for (i, a) in args.into_iter().enumerate().take(np) { regs[i] = a; }
        let fr0 = Fr { st, regs, blk: 0, ip: 0, allocas: vec![], loops: vec![] };
        let nomerge = self.cfg.nomerge.iter().any(|s| name.contains(s.as_str()));
        let joins_ok = !nomerge && !name.contains("5verif");
        // many paths: start again, merging them wherever they meet inside the function
        let limit = if joins_ok { JOIN_LIMIT } else { usize::MAX };
        let snap = (self.obls.clone(), self.covers.clone(), self.implicit.clone(), self.paths_end, self.failures.len(), self.undecided.len());
        let fr1 = Fr { st: fr0.st.clone(), regs: fr0.regs.clone(), blk: 0, ip: 0, allocas: vec![], loops: vec![] };
        let mut res = match self.paths(name, &body, fr0, &up, depth, limit)? {
            Some(r) => r,
            None => {
                if self.cfg.verbose { eprintln!("merging inside {}", demangle(name)); }
                (self.obls, self.covers, self.implicit, self.paths_end) = (snap.0, snap.1, snap.2, snap.3);
                self.failures.truncate(snap.4);
                self.undecided.truncate(snap.5);
                let cfg = Cfgr::new(&body);
                let r = self.joined(name, &body, &cfg, fr1, &up, depth)?;
                self.merge_any(r)
            }
        };
        if res.len() > 1 && !nomerge { res = self.merge_tree(res, base_len); }
        Ok(res)
    }
    fn abort_at(&self, name: &Rc<str>, fr: &Fr, e: String) -> Abort {
        Abort(if e.contains(" [in ") { e } else { format!("{e} [in {} block {} ip {}] {}", demangle(name), fr.blk, fr.ip, self.stack_of(&fr.st).join(" < ")) })
    }
    /// all paths one by one; None if there are more than `limit`
    fn paths(&mut self, name: &Rc<str>, body: &Rc<Body>, fr0: Fr, up: &Rc<Stk>, depth: u32, limit: usize) -> X<Option<Vec<(State, Val)>>> {
        let mut work = vec![fr0];
        let mut res: Vec<(State, Val)> = vec![];
        while let Some(mut fr) = work.pop() {
            loop {
                let r = self.step(name, body, &mut fr, &mut work, depth);
                let r = match r { Ok(r) => r, Err(Abort(e)) => return Err(self.abort_at(name, &fr, e)) };
                match r {
                    Step::Next => fr.ip += 1,
                    Step::Jump(b) => { self.jump(body, &mut fr, b)?; }
                    Step::Ret(v) => {
                        for a in fr.allocas.drain(..) { fr.st.mem.set(a, None); }
                        fr.st.mem.trim();
                        fr.st.stack = up.clone();
                        res.push((fr.st, v));
                        break;
                    }
                    Step::Dead => break,
                    Step::Fork(c) => {
                        // re-execute the same instruction on both sides
                        let (t, f) = self.branch(&fr.st, c)?;
                        match (t, f) {
                            (Some(a), Some(b)) => {
                                let o = Fr { st: b, regs: fr.regs.clone(), blk: fr.blk, ip: fr.ip, allocas: fr.allocas.clone(), loops: vec![] };
                                work.push(o);
                                fr.st = a;
                            }
                            (Some(a), None) => fr.st = a,
                            (None, Some(b)) => fr.st = b,
                            (None, None) => break,
                        }
                    }
                }
            }
            if res.len() + work.len() > limit { return Ok(None); }
        }
        Ok(Some(res))
    }
    /// the paths in step with each other, those at the same place merged
    fn joined(&mut self, name: &Rc<str>, body: &Rc<Body>, cfg: &Cfgr, fr0: Fr, up: &Rc<Stk>, depth: u32) -> X<Vec<(State, Val)>> {
        let mut work = vec![fr0];
        let mut res: Vec<(State, Val)> = vec![];
        while !work.is_empty() {
            let keys: Vec<Vec<u32>> = work.iter().map(|f| cfg.key(f)).collect();
            let min = keys.iter().min().unwrap().clone();
            let (mut here, mut rest) = (vec![], vec![]);
            for (f, k) in work.drain(..).zip(keys) { if k == min { here.push(f) } else { rest.push(f) } }
            work = rest;
            while here.len() > 1 {
                // the two that parted last
                let mut best = None;
                for i in 0..here.len() { for j in 0..i {
                    let (p, q) = (&here[i].st.pc, &here[j].st.pc);
                    let l = p.iter().zip(q.iter()).take_while(|(a, b)| a == b).count();
                    if best.map_or(true, |(m, _, _)| l > m) { best = Some((l, i, j)); }
                } }
                let (l, i, j) = best.unwrap();
                match self.merge_fr(&here[i], &here[j], l) {
                    Some(f) => { self.merges += 1; here.swap_remove(i); here.swap_remove(j); here.push(f); }
                    None => break,
                }
            }
            for mut fr in here {
                loop {
                    let n0 = work.len();
                    let r = self.step(name, body, &mut fr, &mut work, depth);
                    let r = match r { Ok(r) => r, Err(Abort(e)) => return Err(self.abort_at(name, &fr, e)) };
                    for k in n0..work.len() { let w = &mut work[k]; w.loops = fr.loops.clone(); if w.blk != fr.blk || w.ip <= fr.ip { let b = w.blk; cfg.enter(&mut w.loops, b); } }
                    match r {
                        Step::Next => fr.ip += 1,
                        Step::Jump(b) => {
                            self.jump(body, &mut fr, b)?;
                            cfg.enter(&mut fr.loops, b);
                            if cfg.join[b as usize] { work.push(fr); break; }
                        }
                        Step::Ret(v) => {
                            for a in fr.allocas.drain(..) { fr.st.mem.set(a, None); }
                            fr.st.mem.trim();
                            fr.st.stack = up.clone();
                            res.push((fr.st, v));
                            break;
                        }
                        Step::Dead => break,
                        Step::Fork(c) => {
                            let (t, f) = self.branch(&fr.st, c)?;
                            match (t, f) {
                                (Some(a), Some(b)) => {
                                    let o = Fr { st: b, regs: fr.regs.clone(), blk: fr.blk, ip: fr.ip, allocas: fr.allocas.clone(), loops: fr.loops.clone() };
                                    work.push(o);
                                    fr.st = a;
                                }
                                (Some(a), None) => fr.st = a,
                                (None, Some(b)) => fr.st = b,
                                (None, None) => break,
                            }
                        }
                    }
                }
            }
        }
        Ok(res)
    }
    fn merge_any(&mut self, mut v: Vec<(State, Val)>) -> Vec<(State, Val)> {
        while v.len() > 1 {
            let mut c = vec![];
            for i in 0..v.len() { for j in 0..i {
                let (p, q) = (&v[i].0.pc, &v[j].0.pc);
                let l = p.iter().zip(q.iter()).take_while(|(a, b)| a == b).count();
                if p.len() > l && q.len() > l { c.push((l, i, j)); }
            } }
            c.sort_by_key(|x| std::cmp::Reverse(x.0));
            let mut done = None;
            for (l, i, j) in c {
                let k = self.parting(&v[i].0, &v[j].0, l);
                if let Some(m) = self.merge_at(&v[i], &v[j], k, l) { done = Some((i, j, m)); break; }
            }
            let Some((i, j, m)) = done else { break };
            self.merges += 1;
            v.swap_remove(i);
            v.swap_remove(j);
            v.push(m);
        }
        v
    }
    /// holds on the left path and not on the right (the paths exclude each other)
    fn parting(&mut self, a: &State, b: &State, l: usize) -> E {
        let c = a.pc[l];
        let nc = self.cx.not(c);
        if b.pc[l] == nc { c } else { let mut r = c; for e in &a.pc[l + 1..] { r = self.cx.and(r, *e); } r }
    }
    fn merge_fr(&mut self, a: &Fr, b: &Fr, l: usize) -> Option<Fr> {
        if a.allocas != b.allocas || a.loops != b.loops { return None; }
        if a.st.pc.len() <= l || b.st.pc.len() <= l { return None; }
        let c = self.parting(&a.st, &b.st, l);
        let (st, _) = self.merge_at(&(a.st.clone(), Val::N), &(b.st.clone(), Val::N), c, l)?;
        let mut regs = Vec::with_capacity(a.regs.len());
        for (x, y) in a.regs.iter().zip(&b.regs) {
            // values that are not defined on both sides are not used behind the join
            regs.push(self.vite(c, x, y).unwrap_or(Val::N));
        }
        Some(Fr { st, regs, blk: a.blk, ip: a.ip, allocas: a.allocas.clone(), loops: a.loops.clone() })
    }
    fn panic_event(&mut self, st: &State, name: &str, loc: String) -> X<()> {
        if st.panics_ok { *self.covers.entry("expected-panic".into()).or_default() += 1; self.paths_end += 1; return Ok(()); }
        let t = self.cx.tt();
        let m = st.model.clone();
        // the path itself is feasible by construction (its model satisfies the path condition)
        let ok = st.pc.iter().all(|c| m.borrow_mut().eval(&self.cx, *c) == 1);
        let _ = t;
        let nm = format!("no-panic {}", if loc.is_empty() { demangle(name) } else { loc.clone() });
        let o = self.obls.entry(nm.clone()).or_default();
        o.checked += 1;
        if ok { o.failed += 1; self.fail(st, &nm, format!("reachable panic: {} at {}", demangle(name), loc), Some(m)); }
        else { o.unknown += 1; self.undecided.push(nm); }
        self.paths_end += 1;
        if self.failures.len() >= self.cfg.max_fail { return ab("too many failures"); }
        Ok(())
    }
    fn jump(&mut self, body: &Body, fr: &mut Fr, b: u32) -> X<()> {
        let prev = fr.blk;
        let blk = &body.blocks[b as usize];
        let mut new = vec![];
        let mut n = 0;
        for i in &blk.insts {
            let I::Phi(t, v) = &i.i else { break };
            let Some((o, _)) = v.iter().find(|(_, l)| *l == prev) else { return ab("phi") };
            let x = self.get(fr, o, t)?;
            new.push((i.dest, x));
            n += 1;
        }
        for (d, x) in new { fr.regs[d as usize] = x; }
        fr.blk = b;
        fr.ip = n;
        Ok(())
    }
    fn get(&mut self, fr: &Fr, o: &Opd, t: &Ty) -> X<Val> {
        match o { Opd::Reg(r) => Ok(fr.regs[*r as usize].clone()), Opd::C(c) => self.cval(c, t) }
    }
    fn branch(&mut self, st: &State, c: E) -> X<(Option<State>, Option<State>)> {
        let c = self.under(st, c);
        if let Some(k) = self.cx.cv(c) { return Ok(if k == 1 { (Some(st.clone()), None) } else { (None, Some(st.clone())) }); }
        let nc = self.cx.not(c);
        let (rt, mt) = self.sat(st, c)?;
        let (rf, mf) = self.sat(st, nc)?;
        let mut a = None;
        let mut b = None;
        if rt != Res::Unsat { let mut s = st.clone(); s.pc.push(c); self.learn(&mut s, c, true); if let Some(m) = mt { s.model = m; } a = Some(s); }
        if rf != Res::Unsat { let mut s = st.clone(); s.pc.push(nc); self.learn(&mut s, nc, true); if let Some(m) = mf { s.model = m; } b = Some(s); }
        // a decided branch adds nothing to the path condition
        if a.is_some() != b.is_some() {
            let fact = if a.is_some() { c } else { nc };
            let s = if a.is_some() { a.as_mut().unwrap() } else { b.as_mut().unwrap() };
            s.pc = st.pc.clone();
            s.known = st.known.clone();
            self.learn(s, fact, true);
        } else { self.forks += 1; }
        Ok((a, b))
    }
    fn panic_block(&self, body: &Body, b: u32) -> bool { matches!(body.blocks[b as usize].insts.last().map(|i| &i.i), Some(I::Unreachable)) }

    fn step(&mut self, fname: &Rc<str>, body: &Rc<Body>, fr: &mut Fr, work: &mut Vec<Fr>, depth: u32) -> X<Step> {
        self.steps += 1;
        if self.cfg.verbose { *self.prof.entry(fname.clone()).or_default() += 1; }
        if self.steps & 0xffff == 0 { self.tick()?; if self.steps > self.cfg.max_steps { return ab("step limit"); } }
        let inst = &body.blocks[fr.blk as usize].insts[fr.ip];
        let d = inst.dest;
        macro_rules! set { ($v:expr) => {{ let v = $v; if d != NODEST { fr.regs[d as usize] = v; } return Ok(Step::Next); }} }
        macro_rules! sc { ($o:expr, $t:expr) => {{ let v = self.get(fr, $o, $t)?; self.sx(&v)? }} }
        match &inst.i {
            I::Nop => Ok(Step::Next),
            I::Bad(s) => ab(format!("unsupported: {s}")),
            I::Phi(..) => ab("phi in the middle"),
            I::Bin(op, t, a, b) => {
                let x = self.get(fr, a, t)?; let y = self.get(fr, b, t)?;
                let v = match (&x, &y) {
                    (Val::S(x), Val::S(y)) => Val::S(self.bin(op, *x, *y)?),
                    (Val::V(x), Val::V(y)) => { let mut o = vec![]; for (p, q) in x.iter().zip(y.iter()) { o.push(self.bin(op, *p, *q)?) } Val::V(Rc::new(o)) }
                    _ => return ab("bin operands"),
                };
                set!(v)
            }
            I::Icmp(p, t, a, b) => {
                let x = self.get(fr, a, t)?; let y = self.get(fr, b, t)?;
                let v = match (&x, &y) {
                    (Val::S(x), Val::S(y)) => Val::S(self.cmp(p, *x, *y)?),
                    (Val::V(x), Val::V(y)) => { let mut o = vec![]; for (u, q) in x.iter().zip(y.iter()) { o.push(self.cmp(p, *u, *q)?) } Val::V(Rc::new(o)) }
                    _ => return ab("icmp operands"),
                };
                set!(v)
            }
            I::Cast(op, ft, a, to) => {
                let x = self.get(fr, a, ft)?;
                if &**op == "bitcast" {
                    // flatten to bits and rebuild
                    let lanes: Vec<E> = match &x { Val::S(e) => vec![*e], Val::V(v) => v.to_vec(), _ => return ab("bitcast") };
                    let mut acc = *lanes.last().unwrap();
                    if lanes.len() > 1 { for l in lanes[..lanes.len() - 1].iter().rev() { acc = self.cx.concat(acc, *l); } }
                    let v = match to {
                        Ty::Vec(n, et) => { let w = et.bits() as u16; Val::V(Rc::new((0..*n as u16).map(|i| self.cx.ext(acc, i * w, w)).collect())) }
                        _ => Val::S(acc),
                    };
                    set!(v)
                }
                let one = |s: &mut Self, e: E, w: u16| -> E {
                    let ew = s.cx.w(e);
                    if w == ew { e } else if w < ew { s.cx.ext(e, 0, w) } else if &**op == "sext" { s.cx.sext(e, w) } else { s.cx.zext(e, w) }
                };
                let v = match (&x, to) {
                    (Val::S(e), _) => Val::S(one(self, *e, to.bits() as u16)),
                    (Val::V(l), Ty::Vec(_, et)) => { let w = et.bits() as u16; Val::V(Rc::new(l.iter().map(|e| one(self, *e, w)).collect())) }
                    _ => return ab("cast"),
                };
                set!(v)
            }
            I::Gep(t, b, ix) => {
                let bv = self.get(fr, b, &Ty::Ptr)?;
                let mut iv = vec![];
                for (it, io) in ix { iv.push(self.get(fr, io, it)?); }
                let v = self.gep(t, bv, iv)?;
                set!(v)
            }
            I::Load(t, p) => {
                let p = sc!(p, &Ty::Ptr);
                let n = t.store_size();
                match self.resolve(&fr.st, p) {
                    Acc::At(id, off) => {
                        let b = self.read(&mut fr.st, id, off, n)?;
                        let mut v = self.from_bytes(&b, t)?;
                        if let Val::S(e) = &v { if !self.cx.is_c(*e) { if let Some(k) = fr.st.known.get(e) { v = Val::S(*k); } else if matches!(t, Ty::Ptr) { let r = self.under(&fr.st, *e); v = Val::S(r); } } }
                        set!(v)
                    }
                    Acc::Fork(c) => Ok(Step::Fork(c)),
                    Acc::Bad(s) => ab(format!("load: {s}")),
                }
            }
            I::Store(t, v, p) => {
                let p = sc!(p, &Ty::Ptr);
                match self.resolve(&fr.st, p) {
                    Acc::At(id, off) => {
                        let v = self.get(fr, v, t)?;
                        let b = self.to_bytes(&v, t)?;
                        self.write(&mut fr.st, id, off, &b)?;
                        Ok(Step::Next)
                    }
                    Acc::Fork(c) => Ok(Step::Fork(c)),
                    Acc::Bad(s) => ab(format!("store: {s}")),
                }
            }
            I::Alloca(t, n) => {
                let k = sc!(n, &Ty::Int(64));
                let Some(k) = self.cx.cv(k) else { return ab("alloca") };
                let o = Obj::new(&mut self.cx, t.size() * k as u64, None);
                let id = fr.st.mem.alloc(o);
                fr.allocas.push(id);
                let v = Val::S(self.cx.k64(base(id)));
                set!(v)
            }
            I::Select(ct, c, t, a, b) => {
                let c = self.get(fr, c, ct)?; let x = self.get(fr, a, t)?; let y = self.get(fr, b, t)?;
                let v = match &c {
                    Val::S(c) => { let c = self.under(&fr.st, *c); self.vite(c, &x, &y)? }
                    Val::V(cs) => { let (Val::V(x), Val::V(y)) = (&x, &y) else { return ab("select") }; Val::V(Rc::new((0..cs.len()).map(|i| self.cx.ite(cs[i], x[i], y[i])).collect())) }
                    _ => return ab("select"),
                };
                set!(v)
            }
            I::ExtractValue(a, ix) => {
                let mut v = match a { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::C(c) => self.cval(c, &Ty::Void)? };
                for i in ix { let Val::A(f) = &v else { return ab("extractvalue") }; v = f[*i as usize].clone(); }
                set!(v)
            }
            I::InsertValue(t, a, b, ix) => {
                let v = self.get(fr, a, t)?;
                let x = match b { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::C(c) => self.cval(c, &Ty::Void)? };
                fn ins(v: &Val, ix: &[u64], x: Val) -> Val {
                    if ix.is_empty() { return x; }
                    let Val::A(f) = v else { return Val::N };
                    let mut f = (**f).clone();
                    f[ix[0] as usize] = ins(&f[ix[0] as usize].clone(), &ix[1..], x);
                    Val::A(Rc::new(f))
                }
                set!(ins(&v, ix, x))
            }
            I::ExtractElem(a, b) => {
                let v = match a { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::C(c) => self.cval(c, &Ty::Void)? };
                let i = match b { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::C(c) => self.cval(c, &Ty::Int(64))? };
                let (Val::V(l), Some(k)) = (&v, self.cx.cv(self.s(&i))) else { return ab("extractelement") };
                set!(Val::S(l[k as usize]))
            }
            I::InsertElem(t, a, b, c) => {
                let v = self.get(fr, a, t)?;
                let x = match b { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::C(c) => self.cval(c, &Ty::Void)? };
                let i = match c { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::C(c) => self.cval(c, &Ty::Int(64))? };
                let (Val::V(l), Some(k)) = (&v, self.cx.cv(self.s(&i))) else { return ab("insertelement") };
                let mut l = (**l).clone();
                l[k as usize] = self.s(&x);
                set!(Val::V(Rc::new(l)))
            }
            I::Shuffle(t, a, b, m) => {
                let x = self.get(fr, a, t)?; let y = self.get(fr, b, t)?;
                let (Val::V(x), Val::V(y)) = (&x, &y) else { return ab("shuffle") };
                let idx: Vec<Option<u64>> = match m {
                    C::Zero(t) => vec![Some(0); t.len() as usize],
                    C::Undef(t) => vec![None; t.len() as usize],
                    C::Agg(v, _) => v.iter().map(|(_, c)| if let C::Int(_, k) = c { Some(*k as u64) } else { None }).collect(),
                    _ => return ab("shuffle mask"),
                };
                let w = self.cx.w(x[0]);
                let u = self.cx.undef(w);
                let o = idx.iter().map(|i| match i { None => u, Some(k) => { let k = *k as usize; if k < x.len() { x[k] } else { y[k - x.len()] } } }).collect();
                set!(Val::V(Rc::new(o)))
            }
            I::Freeze(a) => { let v = match a { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::C(c) => self.cval(c, &Ty::Void)? }; set!(v) }
            I::Br(b) => Ok(Step::Jump(*b)),
            I::CondBr(c, a, b) => {
                let c = sc!(c, &Ty::Int(1));
                let c = self.under(&fr.st, c);
                if let Some(k) = self.cx.cv(c) {
                    return Ok(Step::Jump(if k == 1 { *a } else { *b }));
                }
                let (t, f) = self.branch(&fr.st, c)?;
                if t.is_none() && self.panic_block(body, *a) || f.is_none() && self.panic_block(body, *b) { self.implicit.checked += 1; self.implicit.discharged += 1; }
                match (t, f) {
                    (Some(x), Some(y)) => {
                        let mut o = Fr { st: y, regs: fr.regs.clone(), blk: fr.blk, ip: fr.ip, allocas: fr.allocas.clone(), loops: vec![] };
                        self.jump(body, &mut o, *b)?;
                        work.push(o);
                        fr.st = x;
                        Ok(Step::Jump(*a))
                    }
                    (Some(x), None) => { fr.st = x; Ok(Step::Jump(*a)) }
                    (None, Some(y)) => { fr.st = y; Ok(Step::Jump(*b)) }
                    (None, None) => Ok(Step::Dead),
                }
            }
            I::Switch(t, v, def, cases) => {
                let x = sc!(v, t);
                let x = self.under(&fr.st, x);
                if let Some(k) = self.cx.cv(x) {
                    let b = cases.iter().find(|(c, _)| *c == k).map(|c| c.1).unwrap_or(*def);
                    return Ok(Step::Jump(b));
                }
                // group cases by target
                let w = self.cx.w(x);
                let mut groups: Vec<(u32, E)> = vec![];
                for (c, l) in cases {
                    let k = self.cx.konst(w, *c);
                    let e = self.cx.eq(x, k);
                    // keep distinct constants apart so that the value stays concrete on each path (small switches)
                    if *l == *def { continue; }
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *l) { g.1 = self.cx.or(g.1, e); } else { groups.push((*l, e)); }
                }
                let mut rest = Some(fr.st.clone());
                let mut outs: Vec<(State, u32)> = vec![];
                for (l, c) in groups {
                    let Some(cur) = rest.take() else { break };
                    let (a, b) = self.branch(&cur, c)?;
                    if a.is_none() && self.panic_block(body, l) { self.implicit.checked += 1; self.implicit.discharged += 1; }
                    if let Some(a) = a { outs.push((a, l)); }
                    rest = b;
                }
                if let Some(r) = rest { outs.push((r, *def)); } else if self.panic_block(body, *def) { self.implicit.checked += 1; self.implicit.discharged += 1; }
                let Some((s0, l0)) = outs.pop() else { return Ok(Step::Dead) };
                for (s, l) in outs {
                    let mut o = Fr { st: s, regs: fr.regs.clone(), blk: fr.blk, ip: fr.ip, allocas: fr.allocas.clone(), loops: vec![] };
                    self.jump(body, &mut o, l)?;
                    work.push(o);
                }
                fr.st = s0;
                Ok(Step::Jump(l0))
            }
            I::Ret(None) => Ok(Step::Ret(Val::N)),
            I::Ret(Some((t, v))) => { let v = self.get(fr, v, t)?; Ok(Step::Ret(v)) }
            I::Unreachable => {
                let loc = format!("unreachable code in {}", demangle(fname));
                self.panic_event(&fr.st.clone(), fname, loc)?;
                Ok(Step::Dead)
            }
            I::Rmw(op, p, t, v) => {
                let p = sc!(p, &Ty::Ptr);
                let v = sc!(v, t);
                match self.resolve(&fr.st, p) {
                    Acc::At(id, off) => {
                        let b = self.read(&mut fr.st, id, off, t.store_size())?;
                        let old = self.from_bytes(&b, t)?;
                        let o = self.s(&old);
                        let n = match &**op { "xchg" => v, "add" | "sub" | "and" | "or" | "xor" => self.bin(op, o, v)?, _ => return ab("atomicrmw") };
                        let b = self.to_bytes(&Val::S(n), t)?;
                        self.write(&mut fr.st, id, off, &b)?;
                        set!(old)
                    }
                    Acc::Fork(c) => Ok(Step::Fork(c)),
                    Acc::Bad(s) => ab(s),
                }
            }
            I::CmpXchg(p, t, c, n) => {
                let p = sc!(p, &Ty::Ptr);
                let c = sc!(c, t);
                let n = sc!(n, t);
                match self.resolve(&fr.st, p) {
                    Acc::At(id, off) => {
                        let b = self.read(&mut fr.st, id, off, t.store_size())?;
                        let old = self.from_bytes(&b, t)?;
                        let o = self.s(&old);
                        let e = self.cx.eq(o, c);
                        let v = self.cx.ite(e, n, o);
                        let b = self.to_bytes(&Val::S(v), t)?;
                        self.write(&mut fr.st, id, off, &b)?;
                        set!(Val::A(Rc::new(vec![old, Val::S(e)])))
                    }
                    Acc::Fork(c) => Ok(Step::Fork(c)),
                    Acc::Bad(s) => ab(s),
                }
            }
            I::Call { callee, args, ret, normal, noret } => {
                let name: Rc<str> = match callee {
                    Opd::C(C::Global(g)) => g.clone(),
                    o => {
                        let p = self.get(fr, o, &Ty::Ptr)?;
                        let p = self.sx(&p)?;
                        let p = self.under(&fr.st, p);
                        match self.cx.cv(p) {
                            Some(k) => {
                                let k = (k as u64).wrapping_sub(0x4000_0000_0000_0000) / 16;
                                match self.fnames.get(k as usize) { Some(n) => n.clone(), None => return ab("indirect call to a non-function") }
                            }
                            None => { if self.cx.n(p).op == Op::Ite { return Ok(Step::Fork(self.cx.n(p).a)); } return ab("symbolic callee") }
                        }
                    }
                };
                let mut av = vec![];
                for (t, o) in args { av.push(self.get(fr, o, t)?); }
                if name.starts_with("llvm.") {
                    let r = self.intrinsic(&mut fr.st, &name, &av, args, ret)?;
                    match r { Ok(v) => { if d != NODEST { fr.regs[d as usize] = v; } }, Err(c) => return Ok(Step::Fork(c)) }
                    return Ok(match normal { Some(b) => Step::Jump(*b), None => Step::Next });
                }
                if *noret && !name.starts_with("vc_") && !name.contains("5verif") {
                    let loc = self.location(&mut fr.st, &av);
                    self.panic_event(&fr.st.clone(), &name, loc)?;
                    return Ok(Step::Dead);
                }
                let dummy = State { mem: Mem::new(0), pc: vec![], known: fr.st.known.clone(), model: fr.st.model.clone(), anys: fr.st.anys.clone(), panics_ok: false, stack: fr.st.stack.clone() };
                let st = std::mem::replace(&mut fr.st, dummy);
                let rs = self.call(st, &name, av, depth + 1)?;
                let mut it = rs.into_iter();
                let Some((s0, v0)) = it.next() else { return Ok(Step::Dead) };
                for (s, v) in it {
                    let mut o = Fr { st: s, regs: fr.regs.clone(), blk: fr.blk, ip: fr.ip + 1, allocas: fr.allocas.clone(), loops: vec![] };
                    if d != NODEST { o.regs[d as usize] = v; }
                    if let Some(b) = normal { o.ip -= 1; self.jump(body, &mut o, *b)?; }
                    work.push(o);
                }
                fr.st = s0;
                if d != NODEST { fr.regs[d as usize] = v0; }
                Ok(match normal { Some(b) => Step::Jump(*b), None => Step::Next })
            }
        }
    }

    // ---------- merging ----------
    fn vite(&mut self, c: E, a: &Val, b: &Val) -> X<Val> {
        Ok(match (a, b) {
            (Val::S(x), Val::S(y)) => Val::S(self.cx.ite(c, *x, *y)),
            (Val::V(x), Val::V(y)) => Val::V(Rc::new((0..x.len()).map(|i| self.cx.ite(c, x[i], y[i])).collect())),
            (Val::A(x), Val::A(y)) => { let mut o = vec![]; for (p, q) in x.iter().zip(y.iter()) { o.push(self.vite(c, p, q)?) } Val::A(Rc::new(o)) }
            (Val::N, Val::N) => Val::N,
            _ => return ab("vite"),
        })
    }
    fn merge_tree(&mut self, mut v: Vec<(State, Val)>, mut pos: usize) -> Vec<(State, Val)> {
        if v.len() < 2 { return v; }
        loop {
            if v.iter().any(|p| p.0.pc.len() <= pos) { return v; }
            let c = v[0].0.pc[pos];
            if v.iter().all(|p| p.0.pc[pos] == c) { pos += 1; continue; }
            let nc = self.cx.not(c);
            if !v.iter().all(|p| p.0.pc[pos] == c || p.0.pc[pos] == nc) { return v; }
            let (a, b): (Vec<_>, Vec<_>) = v.drain(..).partition(|p| p.0.pc[pos] == c);
            let mut a = self.merge_tree(a, pos + 1);
            let mut b = self.merge_tree(b, pos + 1);
            if a.len() == 1 && b.len() == 1 {
                match self.merge2(&a[0], &b[0], c, pos) {
                    Some(m) => { self.merges += 1; return vec![m]; }
                    None => { a.extend(b); return a; }
                }
            }
            a.append(&mut b);
            return a;
        }
    }
    fn merge2(&mut self, a: &(State, Val), b: &(State, Val), c: E, pos: usize) -> Option<(State, Val)> { self.merge_at(a, b, c, pos) }
    /// `c` selects `a`; the path conditions agree up to `pos`
    fn merge_at(&mut self, a: &(State, Val), b: &(State, Val), c: E, pos: usize) -> Option<(State, Val)> {
        if a.0.panics_ok != b.0.panics_ok { return None; }
        if a.0.anys.len() != b.0.anys.len() { return None; }
        let v = self.vite(c, &a.1, &b.1).ok()?;
        let mut mem = a.0.mem.clone();
        for id in a.0.mem.diff(&b.0.mem) {
            let x = a.0.mem.get(id).cloned();
            let y = b.0.mem.get(id).cloned();
            let isg = (id as usize) < self.gnames.len();
            let (x, y) = match (x, y) {
                (Some(x), Some(y)) => (x, y),
                (Some(x), None) => if isg { let g = self.gobj(id).ok()?; (x, g) } else { mem.set(id, Some(x)); continue },
                (None, Some(y)) => if isg { let g = self.gobj(id).ok()?; (g, y) } else { mem.set(id, Some(y)); continue },
                (None, None) => continue,
            };
            if x.size != y.size { return None; }
            let (mut x, mut y) = ((*x).clone(), (*y).clone());
            // align segments
            if x.segs.len() != y.segs.len() || x.segs.iter().zip(&y.segs).any(|(p, q)| p.start != q.start || p.len != q.len) {
                let cuts: Vec<(u64, u64)> = x.segs.iter().chain(&y.segs).map(|s| (s.start, s.len)).collect();
                for (s, l) in cuts { x.carve(&mut self.cx, s, l); y.carve(&mut self.cx, s, l); }
            }
            for k in 0..x.segs.len() {
                let same = match (&x.segs[k].d, &y.segs[k].d) {
                    (SegD::Bytes(p), SegD::Bytes(q)) => Rc::ptr_eq(p, q),
                    (SegD::Arr(p), SegD::Arr(q)) => p == q,
                    _ => false,
                };
                if same { continue; }
                if let (SegD::Bytes(p), SegD::Bytes(q)) = (&x.segs[k].d, &y.segs[k].d) {
                    let nb: Vec<E> = p.iter().zip(q.iter()).map(|(m, n)| self.cx.ite(c, *m, *n)).collect();
                    x.segs[k].d = SegD::Bytes(Rc::new(nb));
                } else {
                    let p = x.to_arr(&mut self.cx, k);
                    let q = y.to_arr(&mut self.cx, k);
                    x.segs[k].d = SegD::Arr(self.cx.ite(c, p, q));
                }
            }
            mem.set(id, Some(Rc::new(x)));
        }
        mem.next = a.0.mem.next.max(b.0.mem.next);
        let mut conj = |s: &State| -> E { let mut r = s.pc[pos]; for e in &s.pc[pos + 1..] { r = self.cx.and(r, *e); } r };
        let ca = conj(&a.0);
        let cb = conj(&b.0);
        let disj = self.cx.or(ca, cb);
        let mut pc = a.0.pc[..pos].to_vec();
        // facts known on both sides survive
        let mut known = (*a.0.known).clone();
        known.retain(|k, v| b.0.known.get(k) == Some(v));
        let mut st = State { mem, pc: vec![], known: Rc::new(known), model: a.0.model.clone(), anys: a.0.anys.clone(), panics_ok: a.0.panics_ok, stack: a.0.stack.clone() };
        if self.cx.cv(disj) != Some(1) { pc.push(disj); }
        st.pc = pc;
        Some((st, v))
    }

    // ---------- LLVM intrinsics ----------
    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], ats: &[(Ty, Opd)], ret: &Ty) -> X<Result<Val, E>> {
        let n = &name[5..];
        macro_rules! at { ($e:expr) => { match self.resolve(st, $e) { Acc::At(i, o) => (i, o), Acc::Fork(c) => return Ok(Err(c)), Acc::Bad(s) => return ab(s) } } }
        if n.starts_with("lifetime") || n.starts_with("experimental.noalias") || n.starts_with("dbg") || n.starts_with("x86.sse2.pause") || n.starts_with("prefetch") { return Ok(Ok(Val::N)); }
        if n.starts_with("assume") { return Ok(Ok(Val::N)); }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let (d, s, l) = (self.sx(&a[0])?, self.sx(&a[1])?, self.sx(&a[2])?);
            let l = self.under(st, l);
            let Some(l) = self.cx.cv(l) else {
                // symbolic length: fork on small values
                return Ok(Err(self.sym_len(st, l)?));
            };
            if l == 0 { return Ok(Ok(Val::N)); }
            let d = at!(d);
            let s = at!(s);
            self.memcpy(st, d, s, l as u64)?;
            return Ok(Ok(Val::N));
        }
        if n.starts_with("memset") {
            let (d, v, l) = (self.sx(&a[0])?, self.sx(&a[1])?, self.sx(&a[2])?);
            let l = self.under(st, l);
            let Some(l) = self.cx.cv(l) else { return Ok(Err(self.sym_len(st, l)?)) };
            if l == 0 { return Ok(Ok(Val::N)); }
            let d = at!(d);
            self.memset(st, d, v, l as u64)?;
            return Ok(Ok(Val::N));
        }
        if n.starts_with("threadlocal.address") { return Ok(Ok(a[0].clone())); }
        if n.starts_with("is.constant") { return Ok(Ok(Val::S(self.cx.ff()))); }
        if n.starts_with("trap") || n.starts_with("ubsantrap") { return ab("trap"); }
        if n.starts_with("expect") { return Ok(Ok(a[0].clone())); }
        if n.starts_with("load.relative") {
            let p = self.sx(&a[0])?; let o = self.sx(&a[1])?;
            let q = self.cx.add(p, o);
            let (id, off) = at!(q);
            let b = self.read(st, id, off, 4)?;
            let v = self.from_bytes(&b, &Ty::Int(32))?;
            let v = self.s(&v);
            let Some(v) = self.relative(v) else { return ab("llvm.load.relative") };
            return Ok(Ok(Val::S(v)));
        }
        let x = self.sx(&a[0])?;
        let w = self.cx.w(x);
        let y = if a.len() > 1 { self.sx(&a[1])? } else { x };
        let _ = (ats, ret);
        let r = if n.starts_with("umax") { let c = self.cx.ult(x, y); self.cx.ite(c, y, x) }
            else if n.starts_with("umin") { let c = self.cx.ult(x, y); self.cx.ite(c, x, y) }
            else if n.starts_with("smax") { let c = self.cx.slt(x, y); self.cx.ite(c, y, x) }
            else if n.starts_with("smin") { let c = self.cx.slt(x, y); self.cx.ite(c, x, y) }
            else if n.starts_with("abs") { let z = self.cx.konst(w, 0); let c = self.cx.slt(x, z); let m = self.cx.sub(z, x); self.cx.ite(c, m, x) }
            else if n.starts_with("usub.sat") { let c = self.cx.ult(x, y); let z = self.cx.konst(w, 0); let d = self.cx.sub(x, y); self.cx.ite(c, z, d) }
            else if n.starts_with("uadd.sat") { let s = self.cx.add(x, y); let c = self.cx.ult(s, x); let z = self.cx.konst(w, u128::MAX); self.cx.ite(c, z, s) }
            else if n.starts_with("sadd.sat") || n.starts_with("ssub.sat") {
                let add = n.starts_with("sadd");
                let r = if add { self.cx.add(x, y) } else { self.cx.sub(x, y) };
                let z = self.cx.konst(w, 0);
                let (xn, yn, rn) = (self.cx.slt(x, z), self.cx.slt(y, z), self.cx.slt(r, z));
                // overflow: the operands agree in sign (differ, for a difference) and the result does not
                let dif = self.cx.xor(xn, yn);
                let may = if add { self.cx.not(dif) } else { dif };
                let turned = self.cx.xor(xn, rn);
                let of = self.cx.and(may, turned);
                let (lo, hi) = (self.cx.konst(w, 1u128 << (w - 1)), self.cx.konst(w, (1u128 << (w - 1)) - 1));
                let lim = self.cx.ite(xn, lo, hi);
                self.cx.ite(of, lim, r)
            }
            else if n.starts_with("bswap") { let mut acc = self.cx.ext(x, 0, 8); for i in 1..w / 8 { let b = self.cx.ext(x, i * 8, 8); acc = self.cx.concat(acc, b); } acc }
            else if n.starts_with("bitreverse") { let mut acc = self.cx.ext(x, 0, 1); for i in 1..w { let b = self.cx.ext(x, i, 1); acc = self.cx.concat(acc, b); } acc }
            else if n.starts_with("ctpop") { let mut acc = self.cx.konst(w, 0); for i in 0..w { let b = self.cx.ext(x, i, 1); let b = if w > 1 { self.cx.zext(b, w) } else { b }; acc = self.cx.add(acc, b); } acc }
            else if n.starts_with("cttz") { let mut acc = self.cx.konst(w, w as u128); for i in (0..w).rev() { let b = self.cx.ext(x, i, 1); let k = self.cx.konst(w, i as u128); acc = self.cx.ite(b, k, acc); } acc }
            else if n.starts_with("ctlz") { let mut acc = self.cx.konst(w, w as u128); for i in 0..w { let b = self.cx.ext(x, i, 1); let k = self.cx.konst(w, (w - 1 - i) as u128); acc = self.cx.ite(b, k, acc); } acc }
            else if n.starts_with("fshl") || n.starts_with("fshr") {
                let k = self.sx(&a[2])?;
                let Some(k) = self.cx.cv(k) else { return ab("symbolic fshl") };
                let k = (k as u16) % w;
                let k = if n.starts_with("fshl") { k } else { w - k };
                if k == 0 { x } else if k == w { y } else { let h = self.cx.ext(x, 0, w - k); let l = self.cx.ext(y, w - k, k); self.cx.concat(h, l) }
            }
            else if n.contains(".with.overflow") {
                let (v, o) = match &n[..4] {
                    "uadd" => { let s = self.cx.add(x, y); (s, self.cx.ult(s, x)) }
                    "usub" => { let s = self.cx.sub(x, y); (s, self.cx.ult(x, y)) }
                    "sadd" | "ssub" => {
                        let (s, yy) = if &n[..4] == "sadd" { (self.cx.add(x, y), y) } else { let s = self.cx.sub(x, y); (s, y) };
                        let sxb = self.cx.ext(x, w - 1, 1); let syb = self.cx.ext(yy, w - 1, 1); let sb = self.cx.ext(s, w - 1, 1);
                        let ne = if &n[..4] == "sadd" { let t = self.cx.xor(sxb, syb); self.cx.not(t) } else { self.cx.xor(sxb, syb) };
                        let ch = self.cx.xor(sxb, sb);
                        (s, self.cx.and(ne, ch))
                    }
                    "umul" | "smul" if w <= 64 => {
                        let sg = &n[..4] == "smul";
                        let (wx, wy) = if sg { (self.cx.sext(x, 2 * w), self.cx.sext(y, 2 * w)) } else { (self.cx.zext(x, 2 * w), self.cx.zext(y, 2 * w)) };
                        let p = self.cx.mul(wx, wy);
                        let lo = self.cx.mul(x, y);
                        let e = if sg { self.cx.sext(lo, 2 * w) } else { self.cx.zext(lo, 2 * w) };
                        let ok = self.cx.eq(p, e);
                        (lo, self.cx.not(ok))
                    }
                    _ => return ab(format!("intrinsic {name}")),
                };
                return Ok(Ok(Val::A(Rc::new(vec![Val::S(v), Val::S(o)]))));
            }
            else if n.starts_with("ucmp") || n.starts_with("scmp") {
                let rw = ret.bits() as u16;
                let lt = if n.starts_with('u') { self.cx.ult(x, y) } else { self.cx.slt(x, y) };
                let e = self.cx.eq(x, y);
                let (m1, z, p1) = (self.cx.konst(rw, u128::MAX), self.cx.konst(rw, 0), self.cx.konst(rw, 1));
                let t = self.cx.ite(e, z, p1);
                self.cx.ite(lt, m1, t)
            }
            else { return ab(format!("intrinsic {name}")); };
        Ok(Ok(Val::S(r)))
    }
    /// a condition to fork on so that a symbolic length becomes concrete
    fn sym_len(&mut self, st: &State, l: E) -> X<E> {
        let k = st.model.borrow_mut().eval(&self.cx, l);
        let w = self.cx.w(l);
        let kk = self.cx.konst(w, k);
        Ok(self.cx.eq(l, kk))
    }

    // ---------- externals and verification primitives ----------
    fn builtin(&mut self, mut st: State, name: &Rc<str>, a: &[Val]) -> X<Option<Vec<(State, Val)>>> {
        let arg = |s: &Self, i: usize| -> X<E> { match a.get(i) { Some(v) => s.sx(v), None => ab("argument") } };
        macro_rules! one { ($st:expr, $v:expr) => { Ok(Some(vec![($st, $v)])) } }
        macro_rules! at { ($st:expr, $e:expr) => { match self.resolve(&$st, $e) { Acc::At(i, o) => (i, o), Acc::Fork(_) => return ab("ite pointer in builtin"), Acc::Bad(s) => return ab(s) } } }
        macro_rules! num { ($i:expr) => {{ let e = arg(self, $i)?; let e = self.under(&st, e); match self.cx.cv(e) { Some(k) => k as u64, None => return ab(format!("symbolic argument to {name}")) } }} }
        if !name.starts_with('_') || name.starts_with("__errno") {
            match &**name {
                "vc_any" => {
                    let w = num!(0) as u16;
                    let n = st.anys.len();
                    let v = self.cx.var(w, &format!("any{n}"));
                    Rc::make_mut(&mut st.anys).push(Any::S(v, w));
                    let z = self.cx.zext(v, 64);
                    return one!(st, Val::S(z));
                }
                "vc_any_mem" => {
                    let p = arg(self, 0)?;
                    let len = num!(1);
                    let (id, off) = at!(st, p);
                    let Some(k) = self.cx.cv(off) else { return ab("vc_any_mem address") };
                    let k = k as u64;
                    let n = st.anys.len();
                    if len >= 1024 {
                        let av = self.cx.avar(&format!("mem{n}"));
                        let o = self.obj(&st, id)?;
                        let mut o = (*o).clone();
                        o.carve(&mut self.cx, k, len);
                        let i = o.segs.iter().position(|s| s.start == k).unwrap();
                        let mut j = i; let mut l = 0;
                        while l < len { l += o.segs[j].len; j += 1; }
                        o.segs.splice(i..j, [Seg { start: k, len, d: SegD::Arr(av) }]);
                        st.mem.set(id, Some(Rc::new(o)));
                        Rc::make_mut(&mut st.anys).push(Any::M(id, len, vec![], Some(av)));
                    } else {
                        let mut b = vec![];
                        let mut i = 0;
                        while i < len {
                            let c = (len - i).min(8) as u16;
                            let v = self.cx.var(c * 8, &format!("mem{n}_{i}"));
                            for j in 0..c { b.push(self.cx.ext(v, j * 8, 8)); }
                            i += c as u64;
                        }
                        self.write(&mut st, id, off, &b)?;
                        Rc::make_mut(&mut st.anys).push(Any::M(id, len, b, None));
                    }
                    return one!(st, Val::N);
                }
                "vc_assume" => {
                    let c = arg(self, 0)?;
                    let c = self.under(&st, c);
                    let (r, m) = self.sat(&st, c)?;
                    if r == Res::Unsat { self.paths_end += 1; return Ok(Some(vec![])); }
                    if r == Res::Unknown { return ab("assumption undecided"); }
                    if let Some(m) = m { st.model = m; }
                    self.assume(&mut st, c);
                    return one!(st, Val::N);
                }
                "vc_assert" => {
                    let c = arg(self, 0)?;
                    let (p, l) = (arg(self, 1)?, num!(2));
                    let Some(nm) = self.rstr(&mut st, p, l) else { return ab("assert name") };
                    let c = self.under(&st, c);
                    let nc = self.cx.not(c);
                    let t0 = Instant::now();
                    let (r, m) = self.sat(&st, nc)?;
                    if self.cfg.verbose && t0.elapsed() > Duration::from_millis(1500) { eprintln!("slow obligation {nm}: {:?} {:?}", t0.elapsed(), r); }
                    let o = self.obls.entry(nm.clone()).or_default();
                    o.checked += 1;
                    match r {
                        Res::Unsat => { o.discharged += 1; }
                        Res::Sat => { o.failed += 1; self.fail(&st, &nm, "postcondition violated".into(), m); if self.failures.len() >= self.cfg.max_fail { return ab("too many failures"); } }
                        Res::Unknown => { o.unknown += 1; self.undecided.push(nm.clone()); }
                    }
                    if r != Res::Unsat {
                        let (r2, m2) = self.sat(&st, c)?;
                        if r2 == Res::Unsat { self.paths_end += 1; return Ok(Some(vec![])); }
                        if let Some(m) = m2 { st.model = m; }
                        self.assume(&mut st, c);
                    }
                    return one!(st, Val::N);
                }
                "vc_cover" => {
                    let c = arg(self, 0)?;
                    let (p, l) = (arg(self, 1)?, num!(2));
                    let Some(nm) = self.rstr(&mut st, p, l) else { return ab("cover name") };
                    let c = self.under(&st, c);
                    self.covers.entry(nm.clone()).or_default();
                    if self.covers[&nm] == 0 && self.sat(&st, c)?.0 == Res::Sat { *self.covers.get_mut(&nm).unwrap() += 1; }
                    return one!(st, Val::N);
                }
                "vc_split" => {
                    // case split: returns the value as a constant on each path
                    let x = arg(self, 0)?;
                    let n = num!(1);
                    let x = self.under(&st, x);
                    if self.cx.is_c(x) { return one!(st, Val::S(x)); }
                    let mut out = vec![];
                    let mut rest = Some(st);
                    for k in 0..n {
                        let Some(cur) = rest.take() else { break };
                        let kk = self.cx.k64(k);
                        let c = self.cx.eq(x, kk);
                        let (a, b) = self.branch(&cur, c)?;
                        if let Some(a) = a { out.push((a, Val::S(kk))); }
                        rest = b;
                    }
                    if let Some(r) = rest { let e = self.under(&r, x); out.push((r, Val::S(e))); }
                    return Ok(Some(out));
                }
                "vc_same" => {
                    // proof hint: the second value where it provably equals the first, else the first
                    let (x, v) = (arg(self, 0)?, arg(self, 1)?);
                    let (x, v) = (self.under(&st, x), self.under(&st, v));
                    if x == v { return one!(st, Val::S(v)); }
                    let q = self.cx.eq(x, v);
                    let nq = self.cx.not(q);
                    let old = std::mem::replace(&mut self.smt.hard_timeout, 40);
                    let r = self.sat(&st, nq);
                    self.smt.hard_timeout = old;
                    let e = if r?.0 == Res::Unsat { v } else { x };
                    if self.cfg.verbose && e == x { eprintln!("hint not proved"); }
                    return one!(st, Val::S(e));
                }
                "vc_panics_ok" => { let b = num!(0); st.panics_ok = b != 0; return one!(st, Val::N); }
                "vc_region" => {
                    let p = arg(self, 0)?;
                    let len = num!(1);
                    let (id, off) = at!(st, p);
                    let Some(k) = self.cx.cv(off) else { return ab("vc_region address") };
                    let o = self.obj(&st, id)?;
                    let mut o = (*o).clone();
                    o.carve(&mut self.cx, k as u64, len);
                    st.mem.set(id, Some(Rc::new(o)));
                    return one!(st, Val::N);
                }
                "vc_stop" => { self.paths_end += 1; return Ok(Some(vec![])); }
                "vc_is_proof" => { let e = self.cx.tt(); return one!(st, Val::S(e)); }
                "vc_debug" => { let e = arg(self, 0)?; eprintln!("vc_debug: {} {}", self.show(e, 8), st.pc.len()); return one!(st, Val::N); }
                "malloc" | "calloc" => {
                    let n = if &**name == "malloc" { num!(0) } else { num!(0) * num!(1) };
                    let o = Obj::new(&mut self.cx, n, if &**name == "calloc" { Some(0) } else { None });
                    let id = st.mem.alloc(o);
                    let p = self.cx.k64(base(id));
                    return one!(st, Val::S(p));
                }
                "posix_memalign" => {
                    let n = num!(2);
                    let pp = arg(self, 0)?;
                    let o = Obj::new(&mut self.cx, n, None);
                    let id = st.mem.alloc(o);
                    let p = self.cx.k64(base(id));
                    let (i, off) = at!(st, pp);
                    let b = self.to_bytes(&Val::S(p), &Ty::Ptr)?;
                    self.write(&mut st, i, off, &b)?;
                    let z = self.cx.konst(32, 0);
                    return one!(st, Val::S(z));
                }
                "realloc" => {
                    let p = arg(self, 0)?;
                    let n = num!(1);
                    let o = Obj::new(&mut self.cx, n, None);
                    let id = st.mem.alloc(o);
                    let q = self.cx.k64(base(id));
                    if self.cx.cv(p) != Some(0) {
                        let (i, off) = at!(st, p);
                        let old = self.obj(&st, i)?.size;
                        let z = self.cx.k64(0);
                        self.memcpy(&mut st, (id, z), (i, off), old.min(n))?;
                        st.mem.set(i, None);
                    }
                    return one!(st, Val::S(q));
                }
                "free" => {
                    let p = arg(self, 0)?;
                    if self.cx.cv(p) == Some(0) { return one!(st, Val::N); }
                    let p = self.under(&st, p);
                    match self.resolve(&st, p) {
                        Acc::At(i, _) => { st.mem.set(i, None); st.mem.trim(); }
                        _ => {} // leak
                    }
                    return one!(st, Val::N);
                }
                "memcmp" | "bcmp" => {
                    let (p, q) = (arg(self, 0)?, arg(self, 1)?);
                    let n = num!(2);
                    if n == 0 { let z = self.cx.konst(32, 0); return one!(st, Val::S(z)); }
                    let x = at!(st, p); let y = at!(st, q);
                    let xb = self.read(&mut st, x.0, x.1, n)?;
                    let yb = self.read(&mut st, y.0, y.1, n)?;
                    let mut acc = self.cx.konst(32, 0);
                    let (m1, p1) = (self.cx.konst(32, u128::MAX), self.cx.konst(32, 1));
                    for i in (0..n as usize).rev() {
                        let e = self.cx.eq(xb[i], yb[i]);
                        let d = if &**name == "bcmp" { p1 } else { let l = self.cx.ult(xb[i], yb[i]); self.cx.ite(l, m1, p1) };
                        acc = self.cx.ite(e, acc, d);
                    }
                    return one!(st, Val::S(acc));
                }
                "strlen" => {
                    let p = arg(self, 0)?;
                    let (i, off) = at!(st, p);
                    let Some(k) = self.cx.cv(off) else { return ab("strlen") };
                    let o = self.obj(&st, i)?;
                    let mut n = 0;
                    loop { let e = o.read_const(&mut self.cx, k as u64 + n); match self.cx.cv(e) { Some(0) => break, Some(_) => n += 1, None => return ab("strlen") } }
                    let e = self.cx.k64(n);
                    return one!(st, Val::S(e));
                }
                "getenv" => { let e = self.cx.k64(0); return one!(st, Val::S(e)); }
                "write" => { let n = arg(self, 2)?; return one!(st, Val::S(n)); }
                "getrandom" | "syscall" => {
                    let (p, n) = if &**name == "getrandom" { (arg(self, 0)?, num!(1)) } else { if num!(0) != 318 { return ab("syscall"); } (arg(self, 1)?, num!(2)) };
                    let (i, off) = at!(st, p);
                    let mut b = vec![];
                    let mut x = self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678;
                    for _ in 0..n { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b.push(self.cx.konst(8, (x & 0xff) as u128)); }
                    self.write(&mut st, i, off, &b)?;
                    let e = self.cx.k64(n);
                    return one!(st, Val::S(e));
                }
                "__errno_location" => {
                    if self.errno == 0 { return ab("errno"); }
                    let e = self.cx.k64(base(self.errno));
                    return one!(st, Val::S(e));
                }
                _ => {}
            }
        }
        if name.contains("5stdio6__print") || name.contains("5stdio7__eprint") || name.contains("5stdio6_print") || name.contains("5stdio7_eprint") { return one!(st, Val::N); }
        Ok(None)
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.cx.n(e);
        match n.op {
            Op::Const => format!("{:#x}", n.imm),
            Op::Var | Op::AVar => self.cx.vars[n.imm as usize].clone(),
            _ if d == 0 => format!("n{e}"),
            Op::Ext => format!("{}[{}+{}]", self.show(n.a, d - 1), n.imm, n.w),
            Op::Zext | Op::Sext => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Ite | Op::AStore => format!("{:?}({},{},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}

/// crude v0 demangling: keep the identifiers
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") { return s.to_string(); }
    let b = s.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut n = 0usize; let st = i;
            while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
            let us = b.get(i) == Some(&b'_');
            let k = if us { i + 1 } else { i };
            if n >= 2 && k + n <= b.len() && b[k..k + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { out.push(s[k..k + n].to_string()); i = k + n; continue; }
            i = st + 1; 
        } else if b[i] == b's' || b[i] == b'B' || b[i] == b'C' {
            // disambiguators / backrefs: skip base-62 up to '_'
            let mut j = i + 1;
            if b[i] == b'C' { if b.get(j) == Some(&b's') { j += 1; } else { i += 1; continue; } }
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; } else { i += 1; }
        } else { i += 1; }
    }
    out.join("::")
}
