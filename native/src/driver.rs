// Runs a verification harness natively, with the real dependencies: replays a counterexample of
// the verifier (`native HARNESS --replay FILE`) or samples inputs (`native HARNESS --random N SEED`).
// Exit code 3: the named obligation failed.
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

struct Stop;
struct Failed(String);

enum Item { S(u64), M(Vec<(usize, u8)>) }
#[derive(Default)]
struct Src { items: Option<std::collections::VecDeque<Item>>, rng: u64, log: String, panics_ok: bool, exhausted: bool, asserts: u64 }
thread_local! { static SRC: RefCell<Src> = RefCell::new(Src::default()); }

fn rnd(s: &mut Src) -> u64 {
    s.rng ^= s.rng << 13;
    s.rng ^= s.rng >> 7;
    s.rng ^= s.rng << 17;
    s.rng.wrapping_mul(0x2545_f491_4f6c_dd1d)
}
fn pick(s: &mut Src, w: u32) -> u64 {
    let r = rnd(s);
    let k = rnd(s) >> 33;
    let v = if w < 64 { r >> 20 } else {
        match k % 16 {
            0 | 1 => r >> 60,
            2 | 3 => r >> 48 & !7,
            4 | 5 => (1 << 16) - 16 + (r >> 59),
            6 => (r >> 59).wrapping_neg(),
            7 => (1 << 63) + (r >> 60),
            8 => (1 << 63) - (r >> 60),
            9 => (1 << 62) + (r >> 60),
            10..=12 => r >> 48,
            _ => r,
        }
    };
    if w >= 64 { v } else { v & ((1 << w) - 1) }
}
#[no_mangle]
pub extern "C-unwind" fn vc_any(w: u32) -> u64 {
    SRC.with(|s| {
        let s = &mut *s.borrow_mut();
        if let Some(q) = &mut s.items {
            match q.pop_front() { Some(Item::S(v)) => v, _ => { s.exhausted = true; 0 } }
        } else {
            let v = pick(s, w);
            s.log.push_str(&format!("s {v}\n"));
            v
        }
    })
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vc_any_mem(p: *mut u8, n: usize) {
    SRC.with(|s| {
        let s = &mut *s.borrow_mut();
        let m = std::slice::from_raw_parts_mut(p, n);
        m.fill(0);
        if let Some(q) = &mut s.items {
            match q.pop_front() { Some(Item::M(v)) => for (i, b) in v { if i < n { m[i] = b } }, _ => s.exhausted = true }
        } else {
            let mut t = format!("m {n}");
            for i in 0..n {
                let r = rnd(s);
                m[i] = if r & 7 == 0 { (r >> 40) as u8 } else { ((r >> 20) % 13) as u8 * 16 + if r & 8 == 0 { 15 } else { (r >> 50) as u8 % 7 } };
                if n < 1024 || i < 4096 { t.push_str(&format!(" {i}:{}", m[i])); } else { m[i] = 0 }
            }
            t.push('\n');
            s.log.push_str(&t);
        }
    })
}
#[no_mangle]
pub extern "C-unwind" fn vc_assume(b: bool) { if !b { resume_unwind(Box::new(Stop)) } }
#[no_mangle]
pub unsafe extern "C-unwind" fn vc_assert(b: bool, p: *const u8, n: usize) {
    SRC.with(|s| s.borrow_mut().asserts += 1);
    if !b { resume_unwind(Box::new(Failed(String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()))) }
}
#[no_mangle]
pub extern "C-unwind" fn vc_cover(_: bool, _: *const u8, _: usize) {}
#[no_mangle]
pub extern "C-unwind" fn vc_same(x: u64, _: u64) -> u64 { x }
#[no_mangle]
pub extern "C-unwind" fn vc_split(x: u64, _: u64) -> u64 { x }
#[no_mangle]
pub extern "C-unwind" fn vc_panics_ok(x: u64) { SRC.with(|s| s.borrow_mut().panics_ok = x != 0) }
#[no_mangle]
pub extern "C-unwind" fn vc_region(_: *mut u8, _: usize) {}
#[no_mangle]
pub extern "C-unwind" fn vc_stop() -> ! { resume_unwind(Box::new(Stop)) }
#[no_mangle]
pub extern "C-unwind" fn vc_is_proof() -> bool { false }

/// Ok(ended normally), Err(what failed)
fn once(f: fn()) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Ok(()),
        Err(e) => {
            if e.is::<Stop>() { return Ok(()); }
            if let Some(x) = e.downcast_ref::<Failed>() { return Err(format!("obligation failed: {}", x.0)); }
            if SRC.with(|s| s.borrow().panics_ok) { return Ok(()); }
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = HARNESSES.iter().find(|h| h.0 == a[1]).expect("harness").1;
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { eprintln!("panicked at {}:{}", l.file(), l.line()) } }));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        if a[2] == "--replay" {
            let t = std::fs::read_to_string(&a[3]).expect("replay file");
            let items = t.lines().filter_map(|l| {
                let mut w = l.split_whitespace();
                match w.next()? {
                    "s" => Some(Item::S(w.next()?.parse().ok()?)),
                    "m" => { w.next(); Some(Item::M(w.filter_map(|x| { let (i, b) = x.split_once(':')?; Some((i.parse().ok()?, b.parse().ok()?)) }).collect())) }
                    _ => None,
                }
            }).collect();
            SRC.with(|s| s.borrow_mut().items = Some(items));
            match once(f) {
                Err(e) if !SRC.with(|s| s.borrow().exhausted) => { println!("{e}"); std::process::exit(3) }
                r => { println!("not reproduced: {r:?}"); std::process::exit(0) }
            }
        }
        let n: u64 = a[3].parse().unwrap();
        let seed: u64 = a[4].parse().unwrap();
        let secs: u64 = a.get(5).and_then(|s| s.parse().ok()).unwrap_or(60);
        let t0 = std::time::Instant::now();
        let mut done = 0;
        for i in 0..n {
            if t0.elapsed().as_secs() > secs { break; }
            SRC.with(|s| { let s = &mut *s.borrow_mut(); *s = Src { rng: (seed.wrapping_mul(1_000_003).wrapping_add(i) ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(0xD134_2543_DE82_EF95) | 1, asserts: s.asserts, ..Src::default() } });
            if let Err(e) = once(f) {
                println!("{e}");
                if let Some(o) = a.get(6) { let _ = SRC.with(|s| std::fs::write(o, &s.borrow().log)); }
                std::process::exit(3)
            }
            done += 1;
        }
        println!("runs {done} asserts {}", SRC.with(|s| s.borrow().asserts));
        std::process::exit(0)
    }).unwrap();
    let _ = h.join();
    std::process::exit(4);
}
