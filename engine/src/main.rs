mod exec;
mod expr;
mod ir;
mod mem;
mod smt;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String { s.chars().map(|c| match c { '"' => "\\\"".into(), '\\' => "\\\\".into(), '\n' => "\\n".into(), c if (c as u32) < 32 => " ".into(), c => c.to_string() }).collect() }

fn main() {
    // llvc FILE.ll FUNCTION OUT.json [--time SECS] [--seed N] [--verbose] [--max-fail N]
    let args: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || {
        let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
        let t0 = Instant::now();
        let text = std::fs::read_to_string(&args[1]).expect("read module");
        let m = ir::Module::parse(text);
        let secs: u64 = opt("--time").and_then(|s| s.parse().ok()).unwrap_or(600);
        let cfg = exec::Cfg {
            max_steps: opt("--steps").and_then(|s| s.parse().ok()).unwrap_or(2_000_000_000),
            deadline: t0 + Duration::from_secs(secs),
            verbose: args.iter().any(|a| a == "--verbose"),
            max_fail: opt("--max-fail").and_then(|s| s.parse().ok()).unwrap_or(8),
            seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            nomerge: opt("--nomerge").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        };
        // resolve the function by suffix
        let want = &args[2];
        let mut cands: Vec<_> = m.funcs.keys().filter(|k| &***k == want.as_str() || k.ends_with(&format!("5verif{}{}", want.len(), want))).cloned().collect();
        cands.sort_by_key(|k| k.len());
        let Some(f) = cands.first().cloned() else { eprintln!("no function {want}"); std::process::exit(3) };
        let mut en = exec::Engine::new(m, cfg);
        if let Some(s) = opt("--hard") { en.smt.hard_timeout = s.parse().unwrap(); }
        en.smt.dump = opt("--dump");
        let r = en.run(&f);
        let abort = match r { Ok(()) => String::new(), Err(exec::Abort(e)) => e };
        let mut js = String::from("{\n");
        js += &format!(" \"function\": \"{}\",\n \"abort\": \"{}\",\n", esc(want), esc(&abort));
        js += &format!(" \"seconds\": {:.2}, \"solver_seconds\": {:.2}, \"queries\": {}, \"hard_queries\": {}, \"steps\": {}, \"forks\": {}, \"merges\": {}, \"paths\": {},\n", t0.elapsed().as_secs_f64(), en.smt.time.as_secs_f64(), en.smt.queries, en.smt.hard, en.steps, en.forks, en.merges, en.paths_end);
        let mut bs: Vec<_> = en.smt.by_solver.iter().collect();
        bs.sort();
        js += &format!(" \"by_solver\": {{{}}},\n", bs.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", "));
        js += &format!(" \"implicit\": {{\"checked\": {}, \"discharged\": {}}},\n", en.implicit.checked, en.implicit.discharged);
        js += &format!(" \"obligations\": {{{}}},\n", en.obls.iter().map(|(k, o)| format!("\"{}\": {{\"checked\": {}, \"discharged\": {}, \"failed\": {}, \"unknown\": {}}}", esc(k), o.checked, o.discharged, o.failed, o.unknown)).collect::<Vec<_>>().join(",\n  "));
        js += &format!(" \"covers\": {{{}}},\n", en.covers.iter().map(|(k, v)| format!("\"{}\": {v}", esc(k))).collect::<Vec<_>>().join(", "));
        js += &format!(" \"undecided\": [{}],\n", en.undecided.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "));
        js += &format!(" \"functions\": [{}],\n", en.called.keys().filter(|k| k.contains("7y86_sim") || k.contains("y86_dbg")).map(|k| format!("\"{}\"", esc(&exec::demangle(k)))).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(", "));
        js += &format!(" \"failures\": [{}]\n}}\n", en.failures.iter().map(|f| format!("{{\"name\": \"{}\", \"detail\": \"{}\", \"replay\": \"{}\", \"stack\": [{}]}}", esc(&f.name), esc(&f.detail), esc(&f.replay), f.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",\n"));
        if let Some(o) = args.get(3).filter(|s| !s.starts_with("--")) { std::fs::write(o, &js).unwrap(); } else { print!("{js}"); }
        if en.cfg.verbose { let mut p: Vec<_> = en.prof.iter().collect(); p.sort_by_key(|x| std::cmp::Reverse(x.1)); for (k, v) in p.iter().take(15) { eprintln!("{v:>10} {}", exec::demangle(k)); } }
        std::process::exit(0);
    }).unwrap();
    let _ = h.join();
    std::process::exit(4);
}
