//! Parser for the textual LLVM IR that rustc emits (function bodies are parsed on first use).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u64, Rc<Ty>), Other(String) }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0; let mut ma = 1;
                for t in f.iter() { let a = if *packed { 1 } else { t.align() }; ma = ma.max(a); o = (o + a - 1) / a * a + t.size(); }
                (o + ma - 1) / ma * ma
            }
            Ty::Other(s) => panic!("size of {s}"),
        }
    }
    pub fn bits(&self) -> u64 { match self { Ty::Int(w) => *w as u64, Ty::Ptr => 64, t => t.size() * 8 } }
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, t => t.size() } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k as u64 == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn len(&self) -> u64 { match self { Ty::Struct(f, _) => f.len() as u64, Ty::Arr(n, _) | Ty::Vec(n, _) => *n, _ => 0 } }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u16, u128), Null, Undef(Ty), Zero(Ty), Global(Rc<str>), Agg(Rc<Vec<(Ty, C)>>, Ty), Str(Rc<Vec<u8>>),
    Gep(Ty, Rc<C>, Rc<Vec<C>>), Cast(Rc<C>, Ty), Bin(Rc<str>, Rc<C>, Rc<C>),
}
#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), C(C) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(Rc<str>, Ty, Opd, Opd),
    Icmp(Rc<str>, Ty, Opd, Opd),
    Cast(Rc<str>, Ty, Opd, Ty),
    Gep(Ty, Opd, Vec<(Ty, Opd)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(Ty, Opd),
    Phi(Ty, Vec<(Opd, u32)>),
    Select(Ty, Opd, Ty, Opd, Opd),
    Call { callee: Opd, args: Vec<(Ty, Opd)>, ret: Ty, normal: Option<u32>, noret: bool },
    ExtractValue(Opd, Vec<u64>),
    InsertValue(Ty, Opd, Opd, Vec<u64>),
    ExtractElem(Opd, Opd),
    InsertElem(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, C),
    Freeze(Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Rmw(Rc<str>, Opd, Ty, Opd),
    CmpXchg(Opd, Ty, Opd, Opd),
    Nop,
    Bad(String),
}
pub struct Inst { pub dest: u32, pub i: I }
pub const NODEST: u32 = u32::MAX;
pub struct Block { pub insts: Vec<Inst> }
pub struct Body { pub blocks: Vec<Block>, pub nregs: usize }
pub struct Func {
    pub name: Rc<str>, pub params: usize, pub noreturn: bool, pub ret: Ty,
    pub text: Option<(usize, usize)>, pub entry_label: usize,
    pub param_names: Vec<String>,
}
pub struct Global { pub ty: Ty, pub init: Option<C>, pub constant: bool, pub weak: bool }
pub struct Module {
    pub text: String,
    pub funcs: HashMap<Rc<str>, Func>,
    pub globals: HashMap<Rc<str>, Global>,
    attrs_noreturn: HashMap<String, bool>,
    types: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
enum T { W(String), L(String), G(String), M, A(String), S(Vec<u8>), N(String), P(char), NL, Dots }

fn ident(b: &[u8], mut i: usize) -> (String, usize) {
    if b.get(i) == Some(&b'"') {
        let s = i + 1; i += 1;
        while b[i] != b'"' { i += 1; }
        return (String::from_utf8_lossy(&b[s..i]).into_owned(), i + 1);
    }
    let s = i;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1; }
    (String::from_utf8_lossy(&b[s..i]).into_owned(), i)
}
fn cstr(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    let mut v = vec![];
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue; }
            v.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else { v.push(b[i]); i += 1; }
    }
    (v, i + 1)
}
fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\n' => { v.push(T::NL); i += 1; }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' => { let (s, j) = ident(b, i + 1); v.push(T::L(s)); i = j; }
            b'@' => { let (s, j) = ident(b, i + 1); v.push(T::G(s)); i = j; }
            b'!' => { let (_, j) = ident(b, i + 1); i = j; if i < b.len() && b[i] == b'"' { let (_, j) = cstr(b, i + 1); i = j; } v.push(T::M); }
            b'#' => { let (s, j) = ident(b, i + 1); v.push(T::A(s)); i = j; }
            b'c' if b.get(i + 1) == Some(&b'"') => { let (s, j) = cstr(b, i + 2); v.push(T::S(s)); i = j; }
            b'"' => { let (s, j) = cstr(b, i + 1);
                if b.get(j) == Some(&b':') { v.push(T::W(String::from_utf8_lossy(&s).into_owned())); } else { v.push(T::W(format!("\"{}", String::from_utf8_lossy(&s)))); }
                i = j; }
            b'.' if s[i..].starts_with("...") => { v.push(T::Dots); i += 3; }
            c if c.is_ascii_digit() || (c == b'-' && b.get(i + 1).map(|x| x.is_ascii_digit()).unwrap_or(false)) => {
                let st = i; i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'_') { i += 1; }
                v.push(T::N(s[st..i].to_string()));
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => { let (s, j) = ident(b, i); v.push(T::W(s)); i = j; }
            c => { v.push(T::P(c as char)); i += 1; }
        }
    }
    v
}

struct P<'a> { t: Vec<T>, i: usize, types: &'a HashMap<String, Ty>, regs: HashMap<String, u32>, labels: HashMap<String, u32>, noret: &'a HashMap<String, bool> }
type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> &T { self.t.get(self.i).unwrap_or(&T::NL) }
    fn next(&mut self) -> T { let t = self.peek().clone(); self.i += 1; t }
    fn p(&mut self, c: char) -> R<()> { let t = self.next(); if t == T::P(c) { Ok(()) } else { Err(format!("expected {c} got {t:?}")) } }
    fn is_p(&self, c: char) -> bool { *self.peek() == T::P(c) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn is_w(&self, s: &str) -> bool { matches!(self.peek(), T::W(w) if w == s) }
    fn eat_w(&mut self, s: &str) -> bool { if self.is_w(s) { self.i += 1; true } else { false } }
    fn word(&mut self) -> R<String> { match self.next() { T::W(w) => Ok(w), t => Err(format!("word expected, got {t:?}")) } }
    fn num(&mut self) -> R<u64> { match self.next() { T::N(n) => n.parse().map_err(|_| format!("num {n}")), t => Err(format!("num expected, got {t:?}")) } }
    fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') | T::P('[') | T::P('{') => d += 1,
                T::P(')') | T::P(']') | T::P('}') => { d -= 1; if d == 0 { return; } }
                T::NL if self.i >= self.t.len() => return,
                _ => {}
            }
        }
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            T::W(w) => w == "ptr" || w == "void" || w == "metadata" || w == "label" || w == "token" || w == "float" || w == "double" || w == "half" || w == "x86_fp80" || w == "fp128" || w == "bfloat"
                || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit())),
            T::P('[') | T::P('{') | T::P('<') => true,
            T::L(n) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next() {
            T::W(w) => match w.as_str() {
                "ptr" => { if self.eat_w("addrspace") { self.skip_group(); } Ok(Ty::Ptr) }
                "void" => Ok(Ty::Void),
                _ if w.starts_with('i') => w[1..].parse().map(Ty::Int).map_err(|_| w),
                _ => Ok(Ty::Other(w)),
            },
            T::P('[') => { let n = self.num()?; self.word()?; let t = self.ty()?; self.p(']')?; Ok(Ty::Arr(n, Rc::new(t))) }
            T::P('{') => { let v = self.tylist('}')?; Ok(Ty::Struct(Rc::new(v), false)) }
            T::P('<') => {
                if self.eat_p('{') { let v = self.tylist('}')?; self.p('>')?; return Ok(Ty::Struct(Rc::new(v), true)); }
                let n = self.num()?; self.word()?; let t = self.ty()?; self.p('>')?; Ok(Ty::Vec(n, Rc::new(t)))
            }
            T::L(n) => self.types.get(&n).cloned().ok_or(n),
            t => Err(format!("type expected, got {t:?}")),
        }
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat_p(end) { return Ok(v); } self.p(',')?; }
    }
    /// skip attribute words up to a type
    fn skip_to_ty(&mut self) -> R<()> {
        let mut n = 0;
        while !self.is_ty() {
            n += 1; if n > 60 { return Err("no type".into()); }
            match self.next() {
                T::W(w) => { if w == "align" && !self.is_p('(') { self.i += 1; } else if self.is_p('(') { self.skip_group(); } }
                T::P(_) | T::N(_) | T::A(_) | T::M => {}
                t => return Err(format!("skip_to_ty {t:?}")),
            }
        }
        Ok(())
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                T::W(w) if !is_const_kw(w) => { let al = w == "align"; self.i += 1; if self.is_p('(') { self.skip_group(); } else if al { self.i += 1; } }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn konst(&mut self, ty: &Ty) -> R<C> {
        Ok(match self.next() {
            T::N(n) => match ty {
                Ty::Int(w) => {
                    let v: i128 = if let Some(h) = n.strip_prefix("u0x") { i128::from_str_radix(h, 16).map_err(|e| e.to_string())? } else {
                        n.parse::<i128>().or_else(|_| n.parse::<u128>().map(|x| x as i128)).map_err(|e| format!("{n} {e}"))? };
                    C::Int(*w, v as u128 & crate::expr::mask(*w))
                }
                _ => return Err(format!("number {n} for {ty:?}")),
            },
            T::W(w) => match w.as_str() {
                "true" => C::Int(1, 1),
                "false" => C::Int(1, 0),
                "null" => C::Null,
                "undef" | "poison" => C::Undef(ty.clone()),
                "zeroinitializer" => C::Zero(ty.clone()),
                "getelementptr" => {
                    while !self.is_p('(') { self.next(); if self.is_w("inrange") { self.next(); self.skip_group(); } }
                    self.p('(')?;
                    let t = self.ty()?; self.p(',')?;
                    let bt = self.ty()?; let b = self.konst(&bt)?;
                    let mut ix = vec![];
                    while self.eat_p(',') { let it = self.ty()?; ix.push(self.konst(&it)?); }
                    self.p(')')?;
                    C::Gep(t, Rc::new(b), Rc::new(ix))
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "sext" => {
                    while !self.is_p('(') { self.next(); }
                    self.p('(')?;
                    let t = self.ty()?; let a = self.konst(&t)?;
                    if !self.eat_w("to") { return Err("cast".into()); }
                    let to = self.ty()?; self.p(')')?;
                    C::Cast(Rc::new(a), to)
                }
                "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while !self.is_p('(') { self.next(); }
                    self.p('(')?;
                    let t = self.ty()?; let a = self.konst(&t)?; self.p(',')?;
                    let t = self.ty()?; let b = self.konst(&t)?; self.p(')')?;
                    C::Bin(w.as_str().into(), Rc::new(a), Rc::new(b))
                }
                "splat" => {
                    self.p('(')?; let t = self.ty()?; let a = self.konst(&t)?; self.p(')')?;
                    let n = ty.len() as usize;
                    C::Agg(Rc::new(vec![(t, a); n]), ty.clone())
                }
                _ => return Err(format!("constant {w}")),
            },
            T::G(g) => C::Global(g.as_str().into()),
            T::S(s) => C::Str(Rc::new(s)),
            T::P('[') => self.agg(']', ty)?,
            T::P('{') => self.agg('}', ty)?,
            T::P('<') => { if self.eat_p('{') { let a = self.agg('}', ty)?; self.p('>')?; a } else { self.agg('>', ty)? } }
            t => return Err(format!("constant {t:?}")),
        })
    }
    fn agg(&mut self, end: char, ty: &Ty) -> R<C> {
        let mut v = vec![];
        if !self.eat_p(end) { loop { let t = self.ty()?; let c = self.konst(&t)?; v.push((t, c)); if self.eat_p(end) { break; } self.p(',')?; } }
        Ok(C::Agg(Rc::new(v), ty.clone()))
    }
    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        if let T::L(n) = self.peek() { let n = n.clone(); self.i += 1; return Ok(Opd::Reg(self.reg(&n))); }
        Ok(Opd::C(self.konst(ty)?))
    }
    fn tyopd(&mut self) -> R<(Ty, Opd)> { let t = self.ty()?; self.skip_attrs(); let o = self.opd(&t)?; Ok((t, o)) }
    fn label(&mut self) -> R<u32> {
        self.eat_w("label");
        match self.next() { T::L(n) => self.labels.get(&n).copied().ok_or(format!("label {n}")), t => Err(format!("label {t:?}")) }
    }
    fn call(&mut self, invoke: bool) -> R<I> {
        self.skip_to_ty()?;
        let ret = self.ty()?;
        if self.is_p('(') { self.skip_group(); }
        while matches!(self.peek(), T::W(w) if w == "noundef" || w == "nonnull") { self.i += 1; }
        if self.is_w("asm") { 
            while !self.is_p('(') { self.next(); }
            self.skip_group();
            return Ok(I::Nop);
        }
        let callee = self.opd(&Ty::Ptr)?;
        self.p('(')?;
        let mut args = vec![];
        if !self.eat_p(')') {
            loop {
                let t = self.ty()?;
                if let Ty::Other(s) = &t { if s == "metadata" {
                    // skip metadata argument
                    let mut d = 0;
                    loop { match self.peek() { T::P('(') | T::P('{') => d += 1, T::P(')') if d == 0 => break, T::P(',') if d == 0 => break, T::P(')') | T::P('}') => d -= 1, _ => {} } self.i += 1; }
                    if self.eat_p(')') { break; } self.p(',')?; continue;
                } }
                self.skip_attrs();
                let o = self.opd(&t)?;
                args.push((t, o));
                if self.eat_p(')') { break; }
                self.p(',')?;
            }
        }
        let mut noret = false;
        loop { match self.peek() {
            T::A(a) => { noret |= self.noret.get(a).copied().unwrap_or(false); self.i += 1; }
            T::W(w) if w == "noreturn" => { noret = true; self.i += 1; }
            T::P('[') => self.skip_group(),
            _ => break,
        } }
        let mut normal = None;
        if invoke {
            while *self.peek() == T::NL { self.i += 1; }
            if !self.eat_w("to") { return Err("invoke".into()); }
            normal = Some(self.label()?);
            self.eat_w("unwind");
            self.label()?;
        }
        Ok(I::Call { callee, args, ret, normal, noret })
    }
    fn inst(&mut self) -> R<I> {
        let mut op = self.word()?;
        while matches!(op.as_str(), "tail" | "musttail" | "notail") { op = self.word()?; }
        let flags = |p: &mut Self| while matches!(p.peek(), T::W(w) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nneg" | "nusw" | "samesign" | "volatile" | "atomic" | "weak" | "inalloca")) { p.i += 1; };
        Ok(match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                flags(self);
                let t = self.ty()?; let a = self.opd(&t)?; self.p(',')?; let b = self.opd(&t)?;
                I::Bin(op.as_str().into(), t, a, b)
            }
            "icmp" => {
                flags(self);
                let pr = self.word()?;
                let t = self.ty()?; let a = self.opd(&t)?; self.p(',')?; let b = self.opd(&t)?;
                I::Icmp(pr.as_str().into(), t, a, b)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                flags(self);
                let (t, a) = self.tyopd()?; if !self.eat_w("to") { return Err("to".into()); } let to = self.ty()?;
                I::Cast(op.as_str().into(), t, a, to)
            }
            "getelementptr" => {
                flags(self);
                let t = self.ty()?; self.p(',')?;
                let (_, b) = self.tyopd()?;
                let mut ix = vec![];
                while self.is_p(',') { self.i += 1; if *self.peek() == T::M { break; } ix.push(self.tyopd()?); }
                I::Gep(t, b, ix)
            }
            "load" => { flags(self); let t = self.ty()?; self.p(',')?; let (_, p) = self.tyopd()?; I::Load(t, p) }
            "store" => { flags(self); let (t, v) = self.tyopd()?; self.p(',')?; let (_, p) = self.tyopd()?; I::Store(t, v, p) }
            "alloca" => {
                flags(self);
                let t = self.ty()?;
                let mut n = Opd::C(C::Int(64, 1));
                if self.eat_p(',') && self.is_ty() { n = self.tyopd()?.1; }
                I::Alloca(t, n)
            }
            "phi" => {
                let t = self.ty()?; let mut v = vec![];
                loop {
                    self.p('[')?; let o = self.opd(&t)?; self.p(',')?; let l = self.label()?; self.p(']')?;
                    v.push((o, l));
                    if !self.is_p(',') { break; } self.i += 1; if !self.is_p('[') { break; }
                }
                I::Phi(t, v)
            }
            "select" => { let (ct, c) = self.tyopd()?; self.p(',')?; let (t, a) = self.tyopd()?; self.p(',')?; let (_, b) = self.tyopd()?; I::Select(ct, c, t, a, b) }
            "call" => self.call(false)?,
            "invoke" => self.call(true)?,
            "extractvalue" => { let (_, a) = self.tyopd()?; let mut v = vec![]; while self.eat_p(',') { if *self.peek() == T::M { break; } v.push(self.num()?); } I::ExtractValue(a, v) }
            "insertvalue" => { let (t, a) = self.tyopd()?; self.p(',')?; let (_, b) = self.tyopd()?; let mut v = vec![]; while self.eat_p(',') { if *self.peek() == T::M { break; } v.push(self.num()?); } I::InsertValue(t, a, b, v) }
            "extractelement" => { let (_, a) = self.tyopd()?; self.p(',')?; let (_, b) = self.tyopd()?; I::ExtractElem(a, b) }
            "insertelement" => { let (t, a) = self.tyopd()?; self.p(',')?; let (_, b) = self.tyopd()?; self.p(',')?; let (_, c) = self.tyopd()?; I::InsertElem(t, a, b, c) }
            "shufflevector" => { let (t, a) = self.tyopd()?; self.p(',')?; let (_, b) = self.tyopd()?; self.p(',')?; let mt = self.ty()?; let m = self.konst(&mt)?; I::Shuffle(t, a, b, m) }
            "freeze" => { let (_, a) = self.tyopd()?; I::Freeze(a) }
            "br" => {
                if self.is_w("label") { I::Br(self.label()?) }
                else { let (_, c) = self.tyopd()?; self.p(',')?; let a = self.label()?; self.p(',')?; let b = self.label()?; I::CondBr(c, a, b) }
            }
            "switch" => {
                let (t, v) = self.tyopd()?; self.p(',')?; let d = self.label()?; self.p('[')?;
                let mut cs = vec![];
                loop {
                    while *self.peek() == T::NL { self.i += 1; }
                    if self.eat_p(']') { break; }
                    let t = self.ty()?; let c = self.konst(&t)?; self.p(',')?; let l = self.label()?;
                    let C::Int(_, k) = c else { return Err("switch".into()) };
                    cs.push((k, l));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => { let t = self.ty()?; if t == Ty::Void { I::Ret(None) } else { self.skip_attrs(); let o = self.opd(&t)?; I::Ret(Some((t, o))) } }
            "unreachable" => I::Unreachable,
            "resume" => I::Unreachable,
            "fence" => I::Nop,
            "atomicrmw" => { flags(self); let o = self.word()?; let (_, p) = self.tyopd()?; self.p(',')?; let (t, v) = self.tyopd()?; I::Rmw(o.as_str().into(), p, t, v) }
            "cmpxchg" => { flags(self); let (_, p) = self.tyopd()?; self.p(',')?; let (t, c) = self.tyopd()?; self.p(',')?; let (_, n) = self.tyopd()?; I::CmpXchg(p, t, c, n) }
            _ => return Err(format!("instruction {op}")),
        })
    }
    fn to_eol(&mut self) {
        // stop at newline (token groups never span lines except those already consumed)
        while self.i < self.t.len() && self.t[self.i] != T::NL { self.i += 1; }
    }
}
fn is_const_kw(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "sext" | "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "splat" | "asm" | "label")
}

impl Module {
    pub fn parse(text: String) -> Module {
        let mut m = Module { text: String::new(), funcs: HashMap::new(), globals: HashMap::new(), attrs_noreturn: HashMap::new(), types: HashMap::new() };
        // pass 1: types and attribute groups
        for l in text.lines() {
            if l.starts_with("attributes #") {
                let n = l["attributes #".len()..].split_whitespace().next().unwrap().to_string();
                m.attrs_noreturn.insert(n, l.split_whitespace().any(|w| w == "noreturn"));
            } else if l.starts_with('%') && l.contains(" = type ") {
                let k = l.find(" = type ").unwrap();
                let (n, _) = ident(l.as_bytes(), 1);
                let mut p = P { t: lex(&l[k + 8..]), i: 0, types: &HashMap::new(), regs: HashMap::new(), labels: HashMap::new(), noret: &HashMap::new() };
                if let Ok(t) = p.ty() { m.types.insert(n, t); }
            }
        }
        let mut off = 0;
        let bytes_len = text.len();
        while off < bytes_len {
            let e = text[off..].find('\n').map(|k| off + k + 1).unwrap_or(bytes_len);
            let line = &text[off..e];
            if line.starts_with("define ") {
                let end = text[off..].find("\n}").map(|k| off + k + 2).unwrap();
                m.header(line, Some((e, end)));
                off = end;
                continue;
            } else if line.starts_with("declare ") { m.header(line, None); }
            else if line.starts_with('@') { m.global(line); }
            off = e;
        }
        m.text = text;
        m
    }
    fn header(&mut self, line: &str, body: Option<(usize, usize)>) {
        let toks = lex(line);
        let gi = toks.iter().position(|t| matches!(t, T::G(_))).unwrap();
        let T::G(name) = toks[gi].clone() else { unreachable!() };
        let name: Rc<str> = name.as_str().into();
        let (noreturn, ret, params, names);
        {
            let mut p = P { t: toks, i: 1, types: &self.types, regs: HashMap::new(), labels: HashMap::new(), noret: &self.attrs_noreturn };
            ret = if p.skip_to_ty().is_ok() && p.i < gi { p.ty().unwrap_or(Ty::Void) } else { Ty::Void };
            p.i = gi + 1;
            let mut nm = vec![];
            let mut cnt = 0;
            if p.p('(').is_ok() && !p.eat_p(')') {
                let mut d = 0;
                let mut last: Option<String> = None;
                loop {
                    match p.next() {
                        T::P('(') | T::P('[') | T::P('{') | T::P('<') => d += 1,
                        T::P(')') if d == 0 => { cnt += 1; nm.push(last.take().unwrap_or_default()); break; }
                        T::P(')') | T::P(']') | T::P('}') | T::P('>') => d -= 1,
                        T::P(',') if d == 0 => { cnt += 1; nm.push(last.take().unwrap_or_default()); }
                        T::L(n) if d == 0 => last = Some(n),
                        T::NL => break,
                        _ => {}
                    }
                }
            }
            params = cnt;
            names = nm;
            let mut nr = false;
            while p.i < p.t.len() { match p.next() { T::A(a) => nr |= self.attrs_noreturn.get(&a).copied().unwrap_or(false), T::W(w) if w == "noreturn" => nr = true, _ => {} } }
            noreturn = nr;
        }
        let entry_label = names.iter().filter(|n| n.parse::<usize>().is_ok()).count();
        self.funcs.insert(name.clone(), Func { name, params, noreturn, ret, text: body, entry_label, param_names: names });
    }
    fn global(&mut self, line: &str) {
        let toks = lex(line);
        let T::G(name) = toks[0].clone() else { return };
        let mut i = 2;
        let (mut constant, mut external, mut weak) = (false, false, false);
        let mut alias = false;
        while i < toks.len() {
            match &toks[i] {
                T::W(w) if w == "global" => { i += 1; break; }
                T::W(w) if w == "constant" => { constant = true; i += 1; break; }
                T::W(w) if w == "alias" => { alias = true; i += 1; break; }
                T::W(w) if w == "external" => external = true,
                T::W(w) if w == "extern_weak" => { external = true; weak = true }
                _ => {}
            }
            i += 1;
        }
        let mut p = P { t: toks, i, types: &self.types, regs: HashMap::new(), labels: HashMap::new(), noret: &self.attrs_noreturn };
        let Ok(ty) = p.ty() else { return };
        if alias { return; }
        let init = if external { None } else { match p.konst(&ty) { Ok(c) => Some(c), Err(e) => { eprintln!("global {name}: {e}"); None } } };
        self.globals.insert(name.as_str().into(), Global { ty, init, constant, weak });
    }
    pub fn body(&self, f: &Func) -> Result<Body, String> {
        let (s, e) = f.text.ok_or("no body")?;
        let toks = lex(&self.text[s..e]);
        // labels
        let mut labels = HashMap::new();
        let mut nb = 0u32;
        let mut k = 0;
        let is_label = |t: &[T], k: usize| -> Option<String> {
            if k > 0 && t[k - 1] != T::NL { return None; }
            if t.get(k + 1) != Some(&T::P(':')) { return None; }
            match &t[k] { T::W(w) => Some(w.clone()), T::N(n) => Some(n.clone()), _ => None }
        };
        let mut first = true;
        while k < toks.len() {
            if toks[k] == T::NL { k += 1; continue; }
            if let Some(l) = is_label(&toks, k) { labels.insert(l, nb); nb += 1; first = false; k += 2; continue; }
            if first { labels.insert(f.entry_label.to_string(), nb); nb += 1; first = false; }
            while k < toks.len() && toks[k] != T::NL { k += 1; }
        }
        let mut p = P { t: toks, i: 0, types: &self.types, regs: HashMap::new(), labels, noret: &self.attrs_noreturn };
        for n in &f.param_names { p.reg(n); }
        let mut blocks: Vec<Block> = vec![];
        loop {
            while *p.peek() == T::NL && p.i < p.t.len() { p.i += 1; }
            if p.i >= p.t.len() || p.is_p('}') { break; }
            if is_label(&p.t, p.i).is_some() { blocks.push(Block { insts: vec![] }); p.i += 2; p.to_eol(); continue; }
            if blocks.is_empty() { blocks.push(Block { insts: vec![] }); }
            if matches!(p.peek(), T::A(_)) { p.to_eol(); continue; }
            let mut dest = NODEST;
            if let T::L(n) = p.peek() { let n = n.clone(); p.i += 1; p.p('=')?; dest = p.reg(&n); }
            if p.is_w("landingpad") {
                p.to_eol(); p.i += 1;
                while matches!(p.peek(), T::W(w) if w == "cleanup" || w == "catch" || w == "filter") { p.to_eol(); p.i += 1; }
                blocks.last_mut().unwrap().insts.push(Inst { dest, i: I::Bad("landingpad".into()) });
                continue;
            }
            let st = p.i;
            let i = match p.inst() { Ok(i) => i, Err(e) => { p.i = st; let mut s = String::new(); while p.i < p.t.len() && p.t[p.i] != T::NL { s.push_str(&format!("{:?} ", p.t[p.i])); p.i += 1; } I::Bad(format!("{e} in {s}")) } };
            blocks.last_mut().unwrap().insts.push(Inst { dest, i });
            p.to_eol();
        }
        Ok(Body { blocks, nregs: p.regs.len() })
    }
}
