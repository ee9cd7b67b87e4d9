mod builtins;
mod cfg;
mod exec;
mod ir;
mod mem;
mod smt;
mod term;

use exec::*;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn real_main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut harness = String::new();
    let mut params = vec![];
    let mut timeout = 60.0;
    let mut max_steps = 50_000_000;
    let mut merge = true;
    let mut hash0 = false;
    let mut fork_ptr = false;
    let mut seed = 1u64;
    let mut samples = 12;
    let mut per_path = 3;
    let mut out = None;
    let mut trace = false;
    let mut qt = 60_000;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--harness" => harness = v(),
            "--params" => params = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--no-merge" => merge = false,
            "--hash0" => hash0 = true,
            "--fork-ptr" => fork_ptr = true,
            "--seed" => seed = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--per-path" => per_path = v().parse().unwrap(),
            "--query-timeout" => qt = v().parse().unwrap(),
            "--out" => out = Some(v()),
            "--trace" => trace = true,
            _ => panic!("unknown argument {}", a),
        }
    }
    let t0 = Instant::now();
    let m = ir::Module::load(std::fs::read_to_string(&ll).expect("read .ll"));
    let ng = m.globals.len();
    let mut e = Engine {
        m,
        ts: term::Terms::new(),
        sv: smt::Solver::new(qt),
        cfg: Config {
            params: params.clone(),
            deadline: t0 + Duration::from_secs_f64(timeout),
            max_steps,
            merge,
            hash0,
            fork_ptr,
            max_samples: samples,
            per_path_samples: per_path,
            seed,
            max_viol: 4,
            trace,
        },
        funcs: Default::default(),
        gobjs: Default::default(),
        targets: vec![None; ng],
        executed: Default::default(),
        viols: vec![],
        seen_viol: Default::default(),
        samples: vec![],
        covers: Default::default(),
        paths_ok: 0,
        paths_panic: 0,
        paths_dead: 0,
        forks: 0,
        merges: 0,
        merge_refused: 0,
        instrs: 0,
        checks: 0,
        checks_sym: 0,
        error: None,
        rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        fork_sites: Default::default(),
        obsname: 0,
    };
    let h = harness.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run(&h)));
    if let Err(p) = r {
        let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        e.error = Some(format!("engine panic: {}", s));
    }
    if trace {
        let mut v: Vec<_> = e.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.iter().take(25) {
            eprintln!("{:8} {} block {}", n, e.m.globals[*f].name, b);
        }
    }
    let mut fns: Vec<String> = e
        .executed
        .iter()
        .map(|g| e.m.globals[*g].name.to_string())
        .filter(|n| n.contains("9bellframe"))
        .collect();
    fns.sort();
    let status = if e.error.is_some() {
        "inconclusive"
    } else if !e.viols.is_empty() {
        "violated"
    } else {
        "holds"
    };
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!("\"harness\": {}, \"params\": {}, \"status\": {},\n", esc(&harness), list(&params), esc(status)));
    s.push_str(&format!("\"error\": {},\n", e.error.as_ref().map(|x| esc(x)).unwrap_or("null".into())));
    s.push_str(&format!(
        "\"paths_ok\": {}, \"paths_panic\": {}, \"paths_dead\": {}, \"forks\": {}, \"merges\": {}, \"merge_refused\": {}, \"instructions\": {}, \"checks\": {}, \"checks_symbolic\": {},\n",
        e.paths_ok, e.paths_panic, e.paths_dead, e.forks, e.merges, e.merge_refused, e.instrs, e.checks, e.checks_sym
    ));
    s.push_str(&format!(
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"solver_s\": {:.4}, \"max_query_s\": {:.4}, \"wall_s\": {:.4}, \"terms\": {}, \"functions_executed\": {},\n",
        e.sv.queries,
        e.sv.sat,
        e.sv.unsat,
        e.sv.time,
        e.sv.max_q,
        t0.elapsed().as_secs_f64(),
        e.ts.nodes.len(),
        e.executed.len()
    ));
    s.push_str(&format!("\"covers\": {{{}}},\n", e.covers.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!(
        "\"violations\": [{}],\n",
        e.viols
            .iter()
            .map(|v| format!(
                "{{\"kind\": {}, \"id\": {}, \"msg\": {}, \"inputs\": {}, \"stack\": [{}]}}",
                esc(&v.kind),
                v.id,
                esc(&v.msg),
                list(&v.inputs),
                v.stack.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",\n")
    ));
    s.push_str(&format!(
        "\"samples\": [{}],\n",
        e.samples
            .iter()
            .map(|v| format!("{{\"inputs\": {}, \"obs\": {}, \"outcome\": {}}}", list(&v.inputs), list(&v.obs), esc(&v.outcome)))
            .collect::<Vec<_>>()
            .join(",\n")
    ));
    s.push_str(&format!("\"functions\": [{}]\n}}\n", fns.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")));
    match out {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => print!("{}", s),
    }
    std::process::exit(0);
}

fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("{}", i)));
    std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap().join().unwrap();
}
