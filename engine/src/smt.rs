//! SMT-LIB back end: one incremental solver process plus a fresh-process portfolio for hard queries.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

#[derive(Default)]
pub struct Model {
    pub vars: HashMap<u32, u128>,
    pub arrs: HashMap<u32, HashMap<u64, u8>>,
    pub memo: HashMap<E, u128>,
}

impl Model {
    /// evaluate a bit-vector term under the model (total: unconstrained inputs are 0)
    pub fn eval(&mut self, cx: &Ctx, e: E) -> u128 {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.memo.contains_key(&x) { stack.pop(); continue; }
            let n = *cx.n(x);
            let mut need = vec![];
            {
                let mut dep = |d: E| if !self.memo.contains_key(&d) { need.push(d) };
                match n.op {
                    Op::Const | Op::Var | Op::Undef | Op::AVar | Op::AConst => {}
                    Op::Zext | Op::Sext | Op::Ext => dep(n.a),
                    Op::Ite => { dep(n.a); if cx.w(n.b) > 0 { dep(n.b); dep(n.c) } }
                    Op::Select => {
                        dep(n.b);
                        // walk array
                        let mut st = vec![n.a];
                        let mut seen = HashSet::new();
                        while let Some(a) = st.pop() {
                            if !seen.insert(a) { continue; }
                            let m = cx.n(a);
                            match m.op {
                                Op::AStore => { dep(m.b); dep(m.c); st.push(m.a) }
                                Op::Ite => { dep(m.a); st.push(m.b); st.push(m.c) }
                                _ => {}
                            }
                        }
                    }
                    _ => { dep(n.a); dep(n.b) }
                }
            }
            if !need.is_empty() { stack.extend(need); continue; }
            let g = |m: &Self, d: E| -> u128 { m.memo[&d] };
            let w = n.w;
            let mk = mask(w);
            let v = match n.op {
                Op::Const => n.imm,
                Op::Undef => 0,
                Op::Var => self.vars.get(&(n.imm as u32)).copied().unwrap_or(0) & mk,
                Op::AVar | Op::AConst | Op::AStore => 0,
                Op::Add => g(self, n.a).wrapping_add(g(self, n.b)) & mk,
                Op::Sub => g(self, n.a).wrapping_sub(g(self, n.b)) & mk,
                Op::Mul => g(self, n.a).wrapping_mul(g(self, n.b)) & mk,
                Op::UDiv => { let b = g(self, n.b); if b == 0 { mk } else { g(self, n.a) / b } }
                Op::URem => { let b = g(self, n.b); if b == 0 { g(self, n.a) } else { g(self, n.a) % b } }
                Op::SDiv => { let (a, b) = (sx(g(self, n.a), w), sx(g(self, n.b), w)); if b == 0 { if a < 0 { 1 } else { mk } } else { a.wrapping_div(b) as u128 & mk } }
                Op::SRem => { let (a, b) = (sx(g(self, n.a), w), sx(g(self, n.b), w)); if b == 0 { a as u128 & mk } else { a.wrapping_rem(b) as u128 & mk } }
                Op::And => g(self, n.a) & g(self, n.b),
                Op::Or => g(self, n.a) | g(self, n.b),
                Op::Xor => g(self, n.a) ^ g(self, n.b),
                Op::Shl => { let k = g(self, n.b); if k >= w as u128 { 0 } else { g(self, n.a) << k & mk } }
                Op::LShr => { let k = g(self, n.b); if k >= w as u128 { 0 } else { g(self, n.a) >> k } }
                Op::AShr => { let k = g(self, n.b).min(w as u128 - 1); (sx(g(self, n.a), w) >> k) as u128 & mk }
                Op::Eq => (g(self, n.a) == g(self, n.b)) as u128,
                Op::Ult => (g(self, n.a) < g(self, n.b)) as u128,
                Op::Slt => { let iw = cx.w(n.a); (sx(g(self, n.a), iw) < sx(g(self, n.b), iw)) as u128 }
                Op::Ite => if w == 0 { 0 } else if g(self, n.a) == 1 { g(self, n.b) } else { g(self, n.c) },
                Op::Zext => g(self, n.a),
                Op::Sext => { let iw = cx.w(n.a); sx(g(self, n.a), iw) as u128 & mk }
                Op::Ext => g(self, n.a) >> n.imm & mk,
                Op::Concat => { let wl = cx.w(n.b); g(self, n.a) << wl | g(self, n.b) }
                Op::Select => {
                    let i = g(self, n.b) as u64;
                    let mut a = n.a;
                    loop {
                        let m = cx.n(a);
                        match m.op {
                            Op::AConst => break m.imm,
                            Op::AVar => break self.arrs.get(&(m.imm as u32)).and_then(|t| t.get(&i)).copied().unwrap_or(0) as u128,
                            Op::AStore => if g(self, m.b) as u64 == i { break g(self, m.c) } else { a = m.a },
                            Op::Ite => a = if g(self, m.a) == 1 { m.b } else { m.c },
                            _ => panic!(),
                        }
                    }
                }
            };
            self.memo.insert(x, v);
            stack.pop();
        }
        self.memo[&e]
    }
}

pub struct Smt {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: HashSet<E>,
    stack: Vec<E>,
    pub inc_timeout: u64,
    pub hard_timeout: u64,
    pub time: Duration,
    pub queries: u64,
    pub hard: u64,
    pub by_solver: HashMap<String, u64>,
    pub dump: Option<String>,
    solver: Vec<String>,
}

pub fn sort(w: u16) -> String {
    match w { 0 => "(Array (_ BitVec 64) (_ BitVec 8))".into(), 1 => "Bool".into(), w => format!("(_ BitVec {w})") }
}
fn bvk(v: u128, w: u16) -> String { if w % 4 == 0 { format!("#x{:0>1$x}", v, w as usize / 4) } else { format!("(_ bv{v} {w})") } }

pub fn name(cx: &Ctx, e: E) -> String {
    let n = cx.n(e);
    match n.op {
        Op::Const => if n.w == 1 { if n.imm == 1 { "true".into() } else { "false".into() } } else { bvk(n.imm, n.w) },
        Op::Var | Op::AVar => format!("v{}", n.imm),
        Op::Undef => format!("undef{}", n.w),
        _ => format!("n{e}"),
    }
}
fn bv(cx: &Ctx, e: E) -> String { if cx.w(e) == 1 { format!("(ite {} #b1 #b0)", name(cx, e)) } else { name(cx, e) } }

fn define(cx: &Ctx, e: E, s: &mut String) {
    let n = cx.n(e);
    let nm = name(cx, e);
    match n.op {
        Op::Const => return,
        Op::Var | Op::AVar | Op::Undef => { let _ = writeln!(s, "(declare-const {nm} {})", sort(n.w)); return; }
        _ => {}
    }
    let body = match n.op {
        Op::Add => format!("(bvadd {} {})", name(cx, n.a), name(cx, n.b)),
        Op::Sub => format!("(bvsub {} {})", name(cx, n.a), name(cx, n.b)),
        Op::Mul => format!("(bvmul {} {})", name(cx, n.a), name(cx, n.b)),
        Op::UDiv => format!("(bvudiv {} {})", name(cx, n.a), name(cx, n.b)),
        Op::SDiv => format!("(bvsdiv {} {})", name(cx, n.a), name(cx, n.b)),
        Op::URem => format!("(bvurem {} {})", name(cx, n.a), name(cx, n.b)),
        Op::SRem => format!("(bvsrem {} {})", name(cx, n.a), name(cx, n.b)),
        Op::Shl => format!("(bvshl {} {})", name(cx, n.a), name(cx, n.b)),
        Op::LShr => format!("(bvlshr {} {})", name(cx, n.a), name(cx, n.b)),
        Op::AShr => format!("(bvashr {} {})", name(cx, n.a), name(cx, n.b)),
        Op::And | Op::Or | Op::Xor => {
            let o = match n.op { Op::And => "and", Op::Or => "or", _ => "xor" };
            if n.w == 1 {
                if n.op == Op::Xor && cx.cv(n.b) == Some(1) { format!("(not {})", name(cx, n.a)) }
                else { format!("({o} {} {})", name(cx, n.a), name(cx, n.b)) }
            } else { format!("(bv{o} {} {})", name(cx, n.a), name(cx, n.b)) }
        }
        Op::Eq => format!("(= {} {})", name(cx, n.a), name(cx, n.b)),
        Op::Ult => format!("(bvult {} {})", bv(cx, n.a), bv(cx, n.b)),
        Op::Slt => format!("(bvslt {} {})", bv(cx, n.a), bv(cx, n.b)),
        Op::Ite => format!("(ite {} {} {})", name(cx, n.a), name(cx, n.b), name(cx, n.c)),
        Op::Zext => if cx.w(n.a) == 1 { format!("(ite {} {} {})", name(cx, n.a), bvk(1, n.w), bvk(0, n.w)) }
            else { format!("((_ zero_extend {}) {})", n.w - cx.w(n.a), name(cx, n.a)) },
        Op::Sext => format!("((_ sign_extend {}) {})", n.w - cx.w(n.a), bv(cx, n.a)),
        Op::Ext => {
            let t = format!("((_ extract {} {}) {})", n.imm as u16 + n.w - 1, n.imm, name(cx, n.a));
            if n.w == 1 { format!("(= {t} #b1)") } else { t }
        }
        Op::Concat => format!("(concat {} {})", bv(cx, n.a), bv(cx, n.b)),
        Op::Select => format!("(select {} {})", name(cx, n.a), name(cx, n.b)),
        Op::AConst => format!("((as const (Array (_ BitVec 64) (_ BitVec 8))) {})", bvk(n.imm, 8)),
        Op::AStore => format!("(store {} {} {})", name(cx, n.a), name(cx, n.b), bv(cx, n.c)),
        _ => unreachable!(),
    };
    let _ = writeln!(s, "(define-fun {nm} () {} {body})", sort(n.w));
}

fn kids(n: &Node) -> [Option<E>; 3] {
    match n.op {
        Op::Const | Op::Var | Op::AVar | Op::Undef | Op::AConst => [None; 3],
        Op::Zext | Op::Sext | Op::Ext => [Some(n.a), None, None],
        Op::Ite | Op::AStore => [Some(n.a), Some(n.b), Some(n.c)],
        _ => [Some(n.a), Some(n.b), None],
    }
}
pub fn cone(cx: &Ctx, roots: &[E], seen: &mut HashSet<E>, order: &mut Vec<E>) {
    let mut st: Vec<(E, bool)> = roots.iter().rev().map(|e| (*e, false)).collect();
    while let Some((e, done)) = st.pop() {
        if done { order.push(e); continue; }
        if !seen.insert(e) { continue; }
        st.push((e, true));
        for k in kids(cx.n(e)).into_iter().flatten() { if !seen.contains(&k) { st.push((k, false)); } }
    }
}

fn spawn(cmd: &[String]) -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let mut c = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn solver");
    let i = c.stdin.take().unwrap();
    let o = BufReader::new(c.stdout.take().unwrap());
    (c, i, o)
}

impl Smt {
    pub fn new() -> Self {
        let z = if which("z3-new") { "z3-new" } else { "z3" };
        let solver: Vec<String> = vec![z.into(), "-in".into()];
        let (child, inp, out) = spawn(&solver);
        let mut s = Smt { child, inp, out, defined: HashSet::new(), stack: vec![], inc_timeout: 2000, hard_timeout: 120, time: Duration::ZERO,
            queries: 0, hard: 0, by_solver: HashMap::new(), dump: None, solver };
        s.header();
        s
    }
    fn header(&mut self) {
        let t = self.inc_timeout;
        self.send(&format!("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout {t})\n(set-option :model.completion true)\n(set-logic QF_AUFBV)\n"));
    }
    fn send(&mut self, s: &str) { let _ = self.inp.write_all(s.as_bytes()); }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = spawn(&self.solver);
        self.child = c; self.inp = i; self.out = o;
        self.defined.clear();
        self.stack.clear();
        self.header();
    }
    fn ensure(&mut self, cx: &Ctx, roots: &[E]) {
        let mut order = vec![];
        let mut seen = std::mem::take(&mut self.defined);
        cone(cx, roots, &mut seen, &mut order);
        self.defined = seen;
        let mut s = String::new();
        for e in order { define(cx, e, &mut s); }
        self.send(&s);
    }
    fn line(&mut self) -> Option<String> {
        let mut l = String::new();
        match self.out.read_line(&mut l) { Ok(0) | Err(_) => None, Ok(_) => Some(l.trim().to_string()) }
    }
    /// is conj(pc) /\ extra satisfiable?
    pub fn check(&mut self, cx: &mut Ctx, pc: &[E], extra: E, want_model: bool) -> (Res, Option<Model>) {
        let t0 = Instant::now();
        self.queries += 1;
        let r = self.check_inc(cx, pc, extra, want_model);
        let r = if r.0 == Res::Unknown { self.check_hard(cx, pc, extra, want_model) } else { *self.by_solver.entry(self.solver[0].clone()).or_default() += 1; r };
        self.time += t0.elapsed();
        r
    }
    fn check_inc(&mut self, cx: &Ctx, pc: &[E], extra: E, want_model: bool) -> (Res, Option<Model>) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] { k += 1; }
        if self.stack.len() > k { let d = self.stack.len() - k; self.send(&format!("(pop {d})\n")); self.stack.truncate(k); }
        let mut roots: Vec<E> = pc[k..].to_vec();
        roots.push(extra);
        self.ensure(cx, &roots);
        let mut s = String::new();
        for e in &pc[k..] { let _ = writeln!(s, "(push 1)\n(assert {})", name(cx, *e)); self.stack.push(*e); }
        let _ = writeln!(s, "(push 1)\n(assert {})\n(check-sat)", name(cx, extra));
        self.send(&s);
        let _ = self.inp.flush();
        let r = loop {
            match self.line() {
                None => { self.restart(); return (Res::Unknown, None); }
                Some(l) => match l.as_str() {
                    "sat" => break Res::Sat,
                    "unsat" => break Res::Unsat,
                    "unknown" | "timeout" => break Res::Unknown,
                    "" => continue,
                    o => { eprintln!("solver said: {o}"); if std::env::var("LLVC_STRICT").is_ok() { panic!("solver error") } self.restart(); return (Res::Unknown, None); }
                },
            }
        };
        let mut model = None;
        if r == Res::Sat && want_model {
            let mut all = pc.to_vec(); all.push(extra);
            let (terms, q) = model_query(cx, &all);
            if terms.is_empty() { model = Some(Model::default()); }
            else {
                self.ensure(cx, &q);
                self.send(&format!("(get-value ({}))\n", terms.iter().map(|t| t.0.clone()).collect::<Vec<_>>().join(" ")));
                let _ = self.inp.flush();
                let txt = read_sexp(&mut self.out);
                model = Some(parse_model(&terms, &txt));
            }
        }
        self.send("(pop 1)\n");
        if let Some(m) = &mut model {
            for e in pc.iter().chain([&extra]) {
                if m.eval(cx, *e) != 1 { eprintln!("warning: solver model does not satisfy the query in the evaluator"); model = None; return (Res::Unknown, None); }
            }
        }
        (r, model)
    }
    fn check_hard(&mut self, cx: &mut Ctx, pc: &[E], extra: E, want_model: bool) -> (Res, Option<Model>) {
        self.hard += 1;
        let mut all = pc.to_vec();
        all.push(extra);
        let (terms, q) = model_query(cx, &all);
        let mut roots = all.clone();
        roots.extend(q);
        let mut order = vec![];
        cone(cx, &roots, &mut HashSet::new(), &mut order);
        let mut s = String::from("(set-option :produce-models true)\n(set-logic QF_ABV)\n");
        for e in order { define(cx, e, &mut s); }
        for e in &all { let _ = writeln!(s, "(assert {})", name(cx, *e)); }
        s.push_str("(check-sat)\n");
        if !terms.is_empty() { let _ = writeln!(s, "(get-value ({}))", terms.iter().map(|t| t.0.clone()).collect::<Vec<_>>().join(" ")); }
        let path = std::env::temp_dir().join(format!("llvc-{}-{}.smt2", std::process::id(), self.hard));
        std::fs::write(&path, &s).unwrap();
        if let Some(d) = &self.dump { let _ = std::fs::write(format!("{d}/hard-{}.smt2", self.hard), &s); }
        // the same query with the arrays eliminated
        let el = eliminate(cx, &all);
        let mut eterms: Vec<(String, MTerm)> = vec![];
        let path2 = std::env::temp_dir().join(format!("llvc-{}-{}-e.smt2", std::process::id(), self.hard));
        if let Some(el) = &el {
            let mut order = vec![];
            cone(cx, &el.roots, &mut HashSet::new(), &mut order);
            for e in &order { if cx.n(*e).op == Op::Var { eterms.push((name(cx, *e), MTerm(MT::Var(cx.n(*e).imm as u32)))); } }
            let mut s = String::from("(set-option :produce-models true)\n(set-logic QF_BV)\n");
            for e in order { define(cx, e, &mut s); }
            for e in &el.roots { let _ = writeln!(s, "(assert {})", name(cx, *e)); }
            s.push_str("(check-sat)\n");
            if !eterms.is_empty() { let _ = writeln!(s, "(get-value ({}))", eterms.iter().map(|t| t.0.clone()).collect::<Vec<_>>().join(" ")); }
            if let Some(d) = &self.dump { let _ = std::fs::write(format!("{d}/hard-{}-e.smt2", self.hard), &s); }
            std::fs::write(&path2, &s).unwrap();
        }
        let p2 = path2.to_string_lossy().to_string();
        let p = path.to_string_lossy().to_string();
        let t = self.hard_timeout.to_string();
        let cmds: Vec<Vec<String>> = vec![
            vec!["z3-new".into(), format!("-T:{t}"), p.clone()],
            vec!["cvc5".into(), format!("--tlimit={}000", t), p.clone()],
            vec!["z3".into(), format!("-T:{t}"), p.clone()],
            vec!["z3-new".into(), format!("-T:{t}"), p2.clone()],
            vec!["cvc5".into(), format!("--tlimit={}000", t), p2.clone()],
            vec!["z3".into(), format!("-T:{t}"), p2.clone()],
        ];
        let cmds: Vec<Vec<String>> = cmds.into_iter().filter(|c| el.is_some() || c[2] != p2).collect();
        let (tx, rx) = std::sync::mpsc::channel();
        let mut kids = vec![];
        for c in cmds.into_iter().filter(|c| which(&c[0])) {
            let Ok(mut ch) = Command::new(&c[0]).args(&c[1..]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { continue };
            let mut o = ch.stdout.take().unwrap();
            let tx = tx.clone();
            let nm = (c[0].clone(), c[2] == p2);
            std::thread::spawn(move || { let mut b = String::new(); let _ = o.read_to_string(&mut b); let _ = tx.send((nm, b)); });
            kids.push(ch);
        }
        drop(tx);
        let mut res = (Res::Unknown, None);
        let deadline = Instant::now() + Duration::from_secs(self.hard_timeout + 10);
        while let Ok((nm, b)) = rx.recv_timeout(deadline.saturating_duration_since(Instant::now())) {
            let f = b.lines().next().unwrap_or("").trim().to_string();
            let (nm, is_el) = nm;
            if f == "unsat" { *self.by_solver.entry(nm).or_default() += 1; res = (Res::Unsat, None); break; }
            if f == "sat" {
                let rest = &b[b.find("sat").unwrap() + 3..];
                let mut m = parse_model(if is_el { &eterms } else { &terms }, rest);
                if is_el { for (av, ix, v) in &el.as_ref().unwrap().sels {
                    let i = m.eval(cx, *ix) as u64; let v = m.eval(cx, *v) as u8;
                    m.arrs.entry(*av).or_default().insert(i, v);
                } m.memo.clear(); }
                if all.iter().any(|e| m.eval(cx, *e) != 1) { eprintln!("warning: {nm} model rejected by the evaluator"); continue; }
                *self.by_solver.entry(nm).or_default() += 1;
                res = (Res::Sat, if want_model { Some(m) } else { None });
                break;
            }
        }
        for mut k in kids { let _ = k.kill(); let _ = k.wait(); }
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_file(&path2);
        res
    }
}
impl Drop for Smt { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

pub fn which(p: &str) -> bool {
    std::env::var("PATH").unwrap_or_default().split(':').any(|d| std::path::Path::new(d).join(p).exists())
}

enum MT { Var(u32), Idx(u32, E) }
/// terms whose values determine a model of the cone
fn model_query(cx: &Ctx, roots: &[E]) -> (Vec<(String, MTerm)>, Vec<E>) {
    let mut order = vec![];
    cone(cx, roots, &mut HashSet::new(), &mut order);
    let mut terms = vec![];
    let mut idx = vec![];
    let mut avars = vec![];
    for e in &order {
        let n = cx.n(*e);
        match n.op {
            Op::Var => terms.push((name(cx, *e), MTerm(MT::Var(n.imm as u32)))),
            Op::AVar => avars.push((*e, n.imm as u32)),
            Op::Select | Op::AStore => if !idx.contains(&n.b) { idx.push(n.b) },
            _ => {}
        }
    }
    for (a, id) in avars { for i in &idx {
        terms.push((name(cx, *i), MTerm(MT::Idx(id, *i))));
        terms.push((format!("(select {} {})", name(cx, a), name(cx, *i)), MTerm(MT::Idx(u32::MAX, *i))));
    } }
    (terms, idx)
}
pub struct MTerm(MT);

fn read_sexp(r: &mut impl BufRead) -> String {
    let mut s = String::new();
    let mut depth = 0i64;
    let mut started = false;
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).unwrap_or(0) == 0 { return s; }
        for c in l.chars() { if c == '(' { depth += 1; started = true } else if c == ')' { depth -= 1 } }
        s.push_str(&l);
        if started && depth <= 0 { return s; }
    }
}
/// Values come back in request order: ((term value) (term value) ...). Parse values only.
fn parse_model(terms: &[(String, MTerm)], txt: &str) -> Model {
    let toks: Vec<String> = {
        let mut v = vec![];
        let mut cur = String::new();
        for c in txt.chars() {
            if c == '(' || c == ')' || c.is_whitespace() {
                if !cur.is_empty() { v.push(std::mem::take(&mut cur)); }
                if !c.is_whitespace() { v.push(c.to_string()); }
            } else { cur.push(c); }
        }
        v
    };
    // split into top-level pairs
    let mut vals: Vec<u128> = vec![];
    let mut depth = 0;
    let mut pair: Vec<String> = vec![];
    for t in &toks {
        if t == "(" { depth += 1; if depth == 2 { pair.clear(); continue; } }
        if t == ")" { depth -= 1; if depth == 1 {
            // the value is the trailing sexp
            let v = if pair.last().map(|s| s == ")").unwrap_or(false) {
                // (_ bvN w) or (select..)?? value is last group
                let mut d = 0; let mut i = pair.len();
                loop { i -= 1; if pair[i] == ")" { d += 1 } if pair[i] == "(" { d -= 1; if d == 0 { break } } }
                let g = &pair[i..];
                g.iter().find_map(|x| x.strip_prefix("bv").and_then(|n| n.parse::<u128>().ok())).unwrap_or(0)
            } else {
                let l = pair.last().cloned().unwrap_or_default();
                if l == "true" { 1 } else if l == "false" { 0 }
                else if let Some(h) = l.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap_or(0) }
                else if let Some(h) = l.strip_prefix("#b") { u128::from_str_radix(h, 2).unwrap_or(0) } else { 0 }
            };
            vals.push(v);
            continue;
        } }
        if depth >= 2 { pair.push(t.clone()); }
    }
    let mut m = Model::default();
    let mut last = (0u32, 0u64);
    for (i, (_, t)) in terms.iter().enumerate() {
        let v = vals.get(i).copied().unwrap_or(0);
        match t.0 {
            MT::Var(id) => { m.vars.insert(id, v); }
            MT::Idx(id, _) if id != u32::MAX => last = (id, v as u64),
            MT::Idx(..) => { m.arrs.entry(last.0).or_default().insert(last.1, v as u8); }
        }
    }
    m
}

struct Elim { roots: Vec<E>, sels: Vec<(u32, E, E)> }
/// Replace reads over writes by case distinctions and reads of array variables by fresh
/// variables with the functional-consistency constraints. None if it would get too large.
fn eliminate(cx: &mut Ctx, roots: &[E]) -> Option<Elim> {
    let mut order = vec![];
    cone(cx, roots, &mut HashSet::new(), &mut order);
    let mut map: HashMap<E, E> = HashMap::new();
    let mut sels: Vec<(u32, E, E)> = vec![];
    let mut budget = 20000i64;
    fn read(cx: &mut Ctx, a: E, i: E, map: &HashMap<E, E>, memo: &mut HashMap<E, E>, sels: &mut Vec<(u32, E, E)>, budget: &mut i64) -> E {
        if let Some(r) = memo.get(&a) { return *r; }
        *budget -= 1;
        if *budget < 0 { return 0; }
        let n = *cx.n(a);
        let r = match n.op {
            Op::AConst => cx.konst(8, n.imm),
            Op::AVar => {
                let id = n.imm as u32;
                match sels.iter().find(|s| s.0 == id && s.1 == i) {
                    Some(s) => s.2,
                    None => { let v = cx.var(8, "sel"); sels.push((id, i, v)); v }
                }
            }
            Op::AStore => {
                let (si, sv) = (map[&n.b], map[&n.c]);
                let c = cx.eq(si, i);
                if cx.cv(c) == Some(1) { sv } else {
                    let rest = read(cx, n.a, i, map, memo, sels, budget);
                    if *budget < 0 { return 0; }
                    cx.ite(c, sv, rest)
                }
            }
            Op::Ite => {
                let c = map[&n.a];
                let x = read(cx, n.b, i, map, memo, sels, budget);
                let y = read(cx, n.c, i, map, memo, sels, budget);
                if *budget < 0 { return 0; }
                cx.ite(c, x, y)
            }
            _ => unreachable!(),
        };
        memo.insert(a, r);
        r
    }
    for e in order {
        let n = *cx.n(e);
        if n.w == 0 { continue; }
        let g = |d: E| map[&d];
        let r = match n.op {
            Op::Const | Op::Var | Op::Undef => e,
            Op::Add => { let (a, b) = (g(n.a), g(n.b)); cx.add(a, b) }
            Op::Sub => { let (a, b) = (g(n.a), g(n.b)); cx.sub(a, b) }
            Op::Mul => { let (a, b) = (g(n.a), g(n.b)); cx.mul(a, b) }
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => { let (a, b) = (g(n.a), g(n.b)); cx.divop(n.op, a, b) }
            Op::And => { let (a, b) = (g(n.a), g(n.b)); cx.and(a, b) }
            Op::Or => { let (a, b) = (g(n.a), g(n.b)); cx.or(a, b) }
            Op::Xor => { let (a, b) = (g(n.a), g(n.b)); cx.xor(a, b) }
            Op::Shl => { let (a, b) = (g(n.a), g(n.b)); cx.shl(a, b) }
            Op::LShr => { let (a, b) = (g(n.a), g(n.b)); cx.lshr(a, b) }
            Op::AShr => { let (a, b) = (g(n.a), g(n.b)); cx.ashr(a, b) }
            Op::Eq => { let (a, b) = (g(n.a), g(n.b)); cx.eq(a, b) }
            Op::Ult => { let (a, b) = (g(n.a), g(n.b)); cx.ult(a, b) }
            Op::Slt => { let (a, b) = (g(n.a), g(n.b)); cx.slt(a, b) }
            Op::Ite => { let (a, b, c) = (g(n.a), g(n.b), g(n.c)); cx.ite(a, b, c) }
            Op::Zext => { let a = g(n.a); cx.zext(a, n.w) }
            Op::Sext => { let a = g(n.a); cx.sext(a, n.w) }
            Op::Ext => { let a = g(n.a); cx.ext(a, n.imm as u16, n.w) }
            Op::Concat => { let (a, b) = (g(n.a), g(n.b)); cx.concat(a, b) }
            Op::Select => { let i = g(n.b); let r = read(cx, n.a, i, &map, &mut HashMap::new(), &mut sels, &mut budget); if budget < 0 { return None; } r }
            _ => unreachable!(),
        };
        map.insert(e, r);
    }
    let mut out: Vec<E> = roots.iter().map(|r| map[r]).collect();
    if sels.len() > 200 { return None; }
    for i in 0..sels.len() { for j in 0..i {
        if sels[i].0 != sels[j].0 { continue; }
        let ne = { let x = cx.eq(sels[i].1, sels[j].1); cx.not(x) };
        if cx.cv(ne) == Some(1) { continue; }
        let ev = cx.eq(sels[i].2, sels[j].2);
        let c = cx.or(ne, ev);
        out.push(c);
    } }
    Some(Elim { roots: out, sels })
}
