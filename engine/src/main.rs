mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => { let _ = write!(o, "\\u{:04x}", (c as u32).min(0xffff)); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let num = |k: &str, d: f64| -> f64 { get(k).map(|s| s.parse().expect("number")).unwrap_or(d) };
    let has = |k: &str| args.iter().any(|a| a == k);
    if has("--version") { println!("symex, {}", z3::Z3::version()); return 0; }
    let ir = get("--ir").expect("--ir");
    let entry = get("--entry").expect("--entry");
    let lim = Limits {
        instr: num("--instr", 30e6) as u64,
        depth: num("--depth", 3000.0) as usize,
        secs: num("--secs", 600.0),
        paths: num("--paths", 1e9) as u64,
        samples: num("--samples", 40.0) as usize,
        max_viol: num("--max-viol", 40.0) as usize,
    };
    let mut e = Engine::new(&ir, lim, num("--z3-ms", 60000.0) as u32);
    e.trace_calls = has("--trace");
    e.profiling = has("--prof");
    e.seed = num("--seed", 1.0) as u64;
    if let Some(p) = get("--param") { e.params = p.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("param")).collect(); }
    let t0 = std::time::Instant::now();
    e.run(&entry);
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::from("{");
    let _ = write!(o, "\"entry\":{},\"params\":{:?},\"wall_s\":{:.3},\"paths\":{},\"pruned\":{},\"forks\":{},\"instructions\":{},", esc(&entry), e.params, wall, e.paths, e.pruned, e.forks, e.instrs);
    let _ = write!(o, "\"queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"cache_hits\":{},\"byte_decisions\":{},\"path_conditions_checked\":{},\"unknowns\":{},\"concretizations\":{},", e.z.queries, e.z.time, e.z.max_q, e.cachehits, e.byte_decisions, e.xcheck, e.z.unknowns, e.conc);
    let _ = write!(o, "\"coverage_query\":{},", esc(e.coverage));
    let _ = write!(o, "\"max_depth\":{},\"max_path_instructions\":{},\"expr_nodes\":{},", e.maxdepth, e.max_path_instr, e.x.nodes.len());
    let cs: Vec<String> = e.checks.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect();
    let _ = write!(o, "\"checks\":{{{}}},", cs.join(","));
    let cs: Vec<String> = e.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let _ = write!(o, "\"reached\":{{{}}},", cs.join(","));
    let fu: Vec<String> = e.functions_used().iter().filter(|n| n.contains("amxml") && !n.contains("drop_in_place") && !n.contains("drop_glue")).map(|n| esc(n)).collect();
    let _ = write!(o, "\"functions\":[{}],", fu.join(","));
    let inp = |v: &Vec<(u32, u128)>| -> String { let s: Vec<String> = v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect(); format!("[{}]", s.join(",")) };
    let tr = |v: &Vec<(u32, u64)>| -> String { let s: Vec<String> = v.iter().map(|(t, x)| format!("[{},{}]", t, x)).collect(); format!("[{}]", s.join(",")) };
    let vs: Vec<String> = e.viols.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"loc\":{},\"bt\":[{}],\"inputs\":{},\"trace\":{}}}", esc(&v.kind), v.id, esc(&v.loc), v.bt.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), inp(&v.inputs), tr(&v.trace))).collect();
    let _ = write!(o, "\"violations\":[{}],", vs.join(","));
    let ss: Vec<String> = e.samples.iter().map(|s| format!("{{\"inputs\":{},\"trace\":{}}}", inp(&s.inputs), tr(&s.trace))).collect();
    let _ = write!(o, "\"samples\":[{}],", ss.join(","));
    let _ = write!(o, "\"slow\":[{}],", e.z.slow_log.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"errors\":[{}],\"incomplete\":{}", e.errors.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), match &e.incomplete { Some(s) => esc(s), None => "null".into() });
    o.push_str("}\n");
    match get("--out") { Some(f) => std::fs::write(f, o).unwrap(), None => print!("{}", o) }
    if e.profiling {
        let mut v: Vec<_> = e.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (n, k) in v.iter().take(25) { eprintln!("{:>8} x100k  {}", k, n); }
        let mut v: Vec<_> = e.forkprof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (n, k) in v.iter().take(25) { eprintln!("{:>8} forks  {}", k, n); }
    }
    0
}
