mod cfg; mod exec; mod expr; mod ir; mod real; mod solver;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }

fn run() -> i32 {
    let mut lls = vec![]; let mut entry = String::new(); let mut out = String::new();
    let mut o = exec::Opts { fp: solver::Fp::Uf, deadline: Instant::now() + Duration::from_secs(300), hard: Duration::from_secs(120), dir: "/tmp/symex".into(), solvers: vec!["z3sat".into(), "cvc5".into(), "cvc5int".into(), "z3".into()], verbose: false, max_viol: 3, nomerge: false, quick_ms: 2000, havoc: false, lazy: false, words: false, stop_alloc: None, stop_bad: false };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--ll" => lls.push(it.next().unwrap()), "--entry" => entry = it.next().unwrap(), "--out" => out = it.next().unwrap(),
            "--fp" => o.fp = match it.next().unwrap().as_str() { "exact" => solver::Fp::Exact, "real" => { expr::ar().realmode = true; solver::Fp::Real } _ => solver::Fp::Uf },
            "--affine" => { expr::ar().affine = true; expr::ar().dyad = true; }
            "--dyad" => expr::ar().dyad = true,
            "--nl" => unsafe { solver::NL = true },
            "--havoc-fp" => o.havoc = true,
            "--time" => o.deadline = Instant::now() + Duration::from_secs(it.next().unwrap().parse().unwrap()),
            "--hard" => o.hard = Duration::from_secs(it.next().unwrap().parse().unwrap()),
            "--quick-ms" => o.quick_ms = it.next().unwrap().parse().unwrap(),
            "--dir" => o.dir = it.next().unwrap(),
            "--solvers" => o.solvers = it.next().unwrap().split(',').map(|s| s.to_string()).collect(),
            "--max-viol" => o.max_viol = it.next().unwrap().parse().unwrap(),
            "--stop-alloc" => o.stop_alloc = Some(it.next().unwrap().parse().unwrap()),
            "--stop-alloc-bad" => { o.stop_alloc = Some(it.next().unwrap().parse().unwrap()); o.stop_bad = true }
            "--words" => o.words = true, "--no-merge" => o.nomerge = true, "-v" => o.verbose = true,
            x => panic!("option {}", x),
        }
    }
    let t0 = Instant::now();
    let mut p = ir::Parser::new();
    let texts: Vec<String> = lls.iter().map(|f| std::fs::read_to_string(f).unwrap()).collect();
    for (i, t) in texts.iter().enumerate() { p.pass1(t, i); }
    for (i, t) in texts.iter().enumerate() { p.aliases(t, i); }
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    loop { let mut all = true; for (i, t) in texts.iter().enumerate() { all &= p.inits(t, i); } if all { break; } }
    for (i, t) in texts.iter().enumerate() { p.pass2(t, i); }
    std::panic::set_hook(hook);
    let v = o.verbose;
    let mut ex = exec::Exec::new(p.m, o);
    if v { eprintln!("parsed {} functions in {:?}", ex.m.funcs.len(), t0.elapsed()); }
    if let Err(e) = ex.start(&entry) { ex.errors.push(e); }
    let mut j = String::from("{\n");
    let _ = write!(j, "\"entry\": {}, \"seconds\": {:.3},\n", js(&entry), t0.elapsed().as_secs_f64());
    let s = &ex.st;
    let _ = write!(j, "\"instructions\": {}, \"forks\": {}, \"merges\": {}, \"paths_completed\": {}, \"max_states\": {}, \"nodes\": {},\n", s.instrs, s.forks, s.merges, s.paths, s.max_states, expr::ar().nodes.len());
    let _ = write!(j, "\"queries\": {}, \"hard_queries\": {}, \"solver_seconds\": {:.3}, \"model_hits\": {}, \"asserts\": {}, \"asserts_by_rewriting\": {}, \"assert_queries\": {}, \"assumes\": {},\n", s.queries, s.hard_queries, s.solver_s, s.model_hits, s.asserts, s.syntactic, s.assert_queries, s.assumes);
    let _ = write!(j, "\"decided_by\": {{{}}},\n", s.by_solver.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "\"assert_ids\": {{{}}},\n", ex.aids.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "));
    let inp = |v: &Vec<(String, u8, u64)>| format!("[{}]", v.iter().map(|x| format!("[{}, {}, \"{}\"]", js(&x.0), x.1, x.2)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "\"witnesses\": [{}],\n", ex.wit.iter().map(|w| format!("{{\"id\": {}, \"inputs\": {}, \"trace\": [{}]}}", w.id, inp(&w.inputs), w.trace.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "\"violations\": [{}],\n", ex.viol.iter().map(|w| format!("{{\"id\": {}, \"msg\": {}, \"definite\": {}, \"inputs\": {}}}", js(&w.id), js(&w.msg), w.definite, inp(&w.inputs))).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "\"errors\": [{}],\n", ex.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "\"functions\": [{}]\n}}\n", ex.funcs.iter().map(|&f| { let f = &ex.m.funcs[f as usize]; js(if f.pretty.is_empty() { &f.name } else { &f.pretty }) }).collect::<Vec<_>>().join(", "));
    if out.is_empty() { print!("{}", j); } else { std::fs::write(&out, j).unwrap(); }
    if !ex.viol.is_empty() { 1 } else if !ex.errors.is_empty() { 2 } else { 0 }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(run).unwrap();
    let r = h.join().unwrap_or(3);
    std::process::exit(r);
}
