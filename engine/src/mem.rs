//! Object memory: disjoint objects, each a list of segments that are either explicit bytes or an SMT array.
use crate::expr::*;
use std::rc::Rc;

pub const BIAS: u64 = 0x1000_0000;
pub fn base(id: u32) -> u64 { ((id as u64 + 1) << 32) + BIAS }
pub fn split_addr(v: u64) -> Option<(u32, i64)> {
    let hi = v >> 32;
    if hi == 0 || hi > 0x0fff_ffff { return None; }
    Some(((hi - 1) as u32, (v & 0xffff_ffff) as i64 - BIAS as i64))
}

#[derive(Clone)]
pub enum SegD { Bytes(Rc<Vec<E>>), Arr(E) }
#[derive(Clone)]
pub struct Seg { pub start: u64, pub len: u64, pub d: SegD }
#[derive(Clone)]
pub struct Obj { pub size: u64, pub segs: Vec<Seg>, pub ro: bool }

const CH: usize = 64;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;
#[derive(Clone)]
pub struct Mem { chunks: Rc<Vec<Chunk>>, pub next: u32, pub floor: u32 }

impl Mem {
    pub fn new(floor: u32) -> Mem { Mem { chunks: Rc::new(vec![]), next: floor, floor } }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> { self.chunks.get(id as usize / CH)?.get(id as usize % CH)?.as_ref() }
    pub fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let k = id as usize / CH;
        let ch = Rc::make_mut(&mut self.chunks);
        while ch.len() <= k { ch.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut ch[k])[id as usize % CH] = o;
    }
    pub fn take(&mut self, id: u32) -> Option<Rc<Obj>> {
        let k = id as usize / CH;
        let ch = Rc::make_mut(&mut self.chunks);
        if ch.len() <= k { return None; }
        Rc::make_mut(&mut ch[k])[id as usize % CH].take()
    }
    pub fn alloc(&mut self, o: Obj) -> u32 { let id = self.next; self.next += 1; self.set(id, Some(Rc::new(o))); id }
    pub fn trim(&mut self) { while self.next > self.floor && self.get(self.next - 1).is_none() { self.next -= 1; } }
    /// ids whose objects may differ
    pub fn diff(&self, o: &Mem) -> Vec<u32> {
        let mut v = vec![];
        if Rc::ptr_eq(&self.chunks, &o.chunks) { return v; }
        let n = self.chunks.len().max(o.chunks.len());
        for k in 0..n {
            let (a, b) = (self.chunks.get(k), o.chunks.get(k));
            if let (Some(a), Some(b)) = (a, b) { if Rc::ptr_eq(a, b) { continue; } }
            for i in 0..CH {
                let x = a.and_then(|c| c[i].as_ref());
                let y = b.and_then(|c| c[i].as_ref());
                let same = match (x, y) { (None, None) => true, (Some(x), Some(y)) => Rc::ptr_eq(x, y), _ => false };
                if !same { v.push((k * CH + i) as u32); }
            }
        }
        v
    }
}

/// the `l` elements of `a` from `st` on as an array of their own, where that is simple to say
pub fn sub_array(cx: &mut Ctx, mut a: E, st: u64, l: u64) -> Option<E> {
    if st == 0 { return Some(a); } // elements beyond the segment are never looked at
    let mut w = vec![];
    while cx.n(a).op == Op::AStore {
        let n = *cx.n(a);
        let ix = cx.cv(n.b)? as u64;
        if ix >= st && ix < st + l { w.push((ix - st, n.c)); }
        a = n.a;
    }
    if cx.n(a).op != Op::AConst { return None; }
    for (i, v) in w.into_iter().rev() { let k = cx.k64(i); a = cx.store(a, k, v); }
    Some(a)
}

impl Obj {
    pub fn new(cx: &mut Ctx, size: u64, fill: Option<u8>) -> Obj {
        let d = if size >= 4096 {
            match fill { Some(b) => SegD::Arr(cx.aconst(b)), None => SegD::Arr(cx.aconst(0xA5)) }
        } else {
            let e = match fill { Some(b) => cx.konst(8, b as u128), None => cx.undef(8) };
            SegD::Bytes(Rc::new(vec![e; size as usize]))
        };
        Obj { size, segs: if size == 0 { vec![] } else { vec![Seg { start: 0, len: size, d }] }, ro: false }
    }
    pub fn seg_at(&self, off: u64) -> Option<usize> { self.segs.iter().position(|s| off >= s.start && off < s.start + s.len) }
    pub fn read_const(&self, cx: &mut Ctx, off: u64) -> E {
        let s = &self.segs[self.seg_at(off).expect("in bounds")];
        match &s.d {
            SegD::Bytes(b) => b[(off - s.start) as usize],
            SegD::Arr(a) => { let i = cx.k64(off - s.start); cx.select(*a, i) }
        }
    }
    pub fn write_const(&mut self, cx: &mut Ctx, off: u64, v: E) {
        let k = self.seg_at(off).expect("in bounds");
        let s = &mut self.segs[k];
        match &mut s.d {
            SegD::Bytes(b) => Rc::make_mut(b)[(off - s.start) as usize] = v,
            SegD::Arr(a) => { let i = cx.k64(off - s.start); *a = cx.store(*a, i, v); }
        }
    }
    /// make [off, off+len) a separate segment
    pub fn carve(&mut self, cx: &mut Ctx, off: u64, len: u64) {
        for cut in [off, off + len] {
            if cut == 0 || cut >= self.size { continue; }
            let k = self.seg_at(cut).unwrap();
            let s = self.segs[k].clone();
            if s.start == cut { continue; }
            let l1 = cut - s.start;
            let l2 = s.len - l1;
            let (d1, d2) = match &s.d {
                SegD::Bytes(b) => (SegD::Bytes(Rc::new(b[..l1 as usize].to_vec())), SegD::Bytes(Rc::new(b[l1 as usize..].to_vec()))),
                SegD::Arr(a) => {
                    let mut part = |st: u64, l: u64| -> SegD {
                        if l >= 4096 { if let Some(x) = sub_array(cx, *a, st, l) { return SegD::Arr(x); } }
                        SegD::Bytes(Rc::new((0..l).map(|i| { let ix = cx.k64(st + i); cx.select(*a, ix) }).collect()))
                    };
                    (part(0, l1), part(l1, l2))
                }
            };
            self.segs.splice(k..k + 1, [Seg { start: s.start, len: l1, d: d1 }, Seg { start: cut, len: l2, d: d2 }]);
        }
    }
    pub fn to_arr(&mut self, cx: &mut Ctx, k: usize) -> E {
        let s = &mut self.segs[k];
        match &s.d {
            SegD::Arr(a) => *a,
            SegD::Bytes(b) => {
                // most frequent constant byte as default
                let mut cnt = std::collections::HashMap::new();
                for e in b.iter() { if let Some(v) = cx.cv(*e) { *cnt.entry(v).or_insert(0) += 1; } }
                let d = cnt.into_iter().max_by_key(|(_, n)| *n).map(|(v, _)| v).unwrap_or(0) as u8;
                let mut a = cx.aconst(d);
                for (i, e) in b.iter().enumerate() { let ix = cx.k64(i as u64); a = cx.store(a, ix, *e); }
                s.d = SegD::Arr(a);
                a
            }
        }
    }
}
