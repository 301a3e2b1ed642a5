mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn jn(v: &[u64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut ll, mut entries, mut threads, mut secs, mut out) = (String::new(), Vec::<String>::new(), 8usize, 300u64, String::new());
    let (mut strict, mut each, mut first) = (false, u64::MAX, false);
    let (mut samples, mut seed, mut qms, mut maxi, mut dump, mut dumpn, mut maxv) = (16usize, 1u64, 20000u32, 20_000_000u64, None::<String>, 200u64, 20usize);
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("argument value");
        match k.as_str() {
            "--ll" => ll = v(), "--entry" => entries.push(v()), "--threads" => threads = v().parse().unwrap(), "--seconds" => secs = v().parse().unwrap(),
            "--out" => out = v(), "--samples" => samples = v().parse().unwrap(), "--seed" => seed = v().parse().unwrap(), "--query-ms" => qms = v().parse().unwrap(),
            "--max-path-insts" => maxi = v().parse().unwrap(), "--dump" => dump = Some(v()), "--strict-loads" => strict = true, "--each" => each = v().parse().unwrap(), "--first" => first = true, "--dump-n" => dumpn = v().parse().unwrap(), "--max-viol" => maxv = v().parse().unwrap(),
            _ => { eprintln!("unknown argument {k}"); std::process::exit(2); }
        }
    }
    let m = match ir::Module::load(&ll) { Ok(m) => m, Err(e) => { eprintln!("sx: {e}"); std::process::exit(2); } };
    let hard = Instant::now() + Duration::from_secs(secs);
    let mut js_entries = vec![];
    for (ei, e) in entries.iter().enumerate() {
        let t0 = Instant::now();
        let dir = dump.as_ref().map(|d| { let p = std::path::Path::new(d).join(e); let _ = std::fs::create_dir_all(&p); (p, dumpn) });
        // an entry gets at most half of what is left, the last one all of it
        let left = hard.saturating_duration_since(Instant::now());
        let deadline = if ei + 1 == entries.len() { hard } else { Instant::now() + left / 2 };
        let deadline = if each < 100_000 { deadline.min(Instant::now() + Duration::from_secs(each)) } else { deadline };
        let cfg = exec::Cfg { threads, deadline, max_path_insts: maxi, max_samples: samples, seed, max_viol: maxv, strict_loads: strict };
        let en = exec::Engine::new(&m, solver::Shared::new(qms, dir), cfg);
        let r = en.run(e);
        let rep = en.rep.lock().unwrap();
        let s = &en.sh.stats;
        let status = if let Err(x) = &r { format!("error: {x}") } else if en.timed_out.load(Relaxed) { "timeout".into() } else if !rep.errors.is_empty() { "incomplete".into() } else { "complete".to_string() };
        let mut j = String::new();
        let _ = write!(j, "{{\"entry\":{},\"status\":{},\"paths\":{},\"killed\":{},\"panics_caught\":{},\"forks\":{},\"insts\":{},\"sym_branches\":{},\"checks_concrete\":{},\"checks_solver\":{},\"max_pc\":{},",
            js(e), js(&status), en.paths.load(Relaxed), en.paths_killed.load(Relaxed), en.paths_panicked.load(Relaxed), en.forks.load(Relaxed), en.insts.load(Relaxed), en.sym_branches.load(Relaxed), en.checks_const.load(Relaxed), en.checks_query.load(Relaxed), en.max_pc.load(Relaxed));
        let _ = write!(j, "\"queries\":{{\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"solver_s\":{:.3}}},\"wall_s\":{:.3},",
            s.sat.load(Relaxed), s.unsat.load(Relaxed), s.unknown.load(Relaxed), s.cache_hits.load(Relaxed), s.model_hits.load(Relaxed), s.nanos.load(Relaxed) as f64 / 1e9, t0.elapsed().as_secs_f64());
        let mut errs: Vec<_> = rep.errors.iter().collect();
        errs.sort();
        let _ = write!(j, "\"errors\":[{}],", errs.iter().map(|(k, n)| format!("{{\"what\":{},\"n\":{n}}}", js(k))).collect::<Vec<_>>().join(","));
        let mut cov: Vec<_> = rep.covers.iter().collect();
        cov.sort();
        let _ = write!(j, "\"covers\":{{{}}},", cov.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect::<Vec<_>>().join(","));
        let mut fs: Vec<String> = rep.funcs.iter().map(|f| m.funcs[*f as usize].name.clone()).filter(|n| n.contains("division_ecs")).map(|n| exec::demangle(&n)).collect();
        fs.sort();
        fs.dedup();
        let _ = write!(j, "\"functions_total\":{},\"functions\":[{}],", rep.funcs.len(), fs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
        let _ = write!(j, "\"violations\":[{}],", rep.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":[{}]}}", js(&v.kind), js(&v.msg), jn(&v.inputs), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let _ = write!(j, "\"samples\":[{}]}}", rep.samples.iter().map(|v| format!("{{\"inputs\":{},\"emits\":{},\"constraints\":{}}}", jn(&v.inputs), jn(&v.emits), v.pc)).collect::<Vec<_>>().join(","));
        js_entries.push(j);
        let stop = first && !rep.violations.is_empty();
        eprintln!("sx: {e}: {status} paths={} killed={} forks={} insts={} queries={}+{} solver={:.1}s viol={} {:.1}s", en.paths.load(Relaxed), en.paths_killed.load(Relaxed), en.forks.load(Relaxed), en.insts.load(Relaxed), s.sat.load(Relaxed), s.unsat.load(Relaxed), s.nanos.load(Relaxed) as f64 / 1e9, rep.violations.len(), t0.elapsed().as_secs_f64());
        for (k, n) in errs { eprintln!("sx:   error x{n}: {k}"); }
        for v in rep.violations.iter().take(8) { eprintln!("sx:   violation {}: {} inputs={:?} in {}", v.kind, v.msg, v.inputs, v.stack.iter().take(4).cloned().collect::<Vec<_>>().join(" < ")); }
        if stop { break; }
    }
    let txt = format!("{{\"z3\":{},\"entries\":[{}]}}\n", js(&solver::z3_version()), js_entries.join(","));
    if out.is_empty() { println!("{txt}"); } else { std::fs::write(&out, txt).expect("write report"); }
}
