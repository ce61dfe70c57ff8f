mod exec;
mod ir;
mod mem;
mod smt;
mod term;
use std::time::Duration;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn real_main() {
    let mut a = std::env::args().skip(1);
    let ll = a.next().expect("usage: sxe module.ll entry [options]");
    let entry = a.next().expect("entry");
    let mut cfg = exec::Cfg {
        params: vec![],
        shard: (0, 1),
        time: Duration::from_secs(60),
        max_steps: 60_000_000,
        seed: 1,
        max_cands: 4,
        witnesses: 4,
        trace: false,
    };
    let mut tmp = "/tmp".to_string();
    let mut inc = 250;
    let mut hard = 60000;
    let mut int = 0u64;
    while let Some(o) = a.next() {
        let mut v = || a.next().expect("value");
        match o.as_str() {
            "--param" => cfg.params = v().split(',').map(|x| x.parse().unwrap()).collect(),
            "--shard" => {
                let s = v();
                let (i, n) = s.split_once('/').unwrap();
                cfg.shard = (i.parse().unwrap(), n.parse().unwrap());
            }
            "--time" => cfg.time = Duration::from_secs_f64(v().parse().unwrap()),
            "--steps" => cfg.max_steps = v().parse().unwrap(),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--cands" => cfg.max_cands = v().parse().unwrap(),
            "--witnesses" => cfg.witnesses = v().parse().unwrap(),
            "--tmp" => tmp = v(),
            "--inc" => inc = v().parse().unwrap(),
            "--hard" => hard = v().parse().unwrap(),
            "--int" => int = v().parse().unwrap(),
            "--trace" => cfg.trace = true,
            _ => panic!("option {}", o),
        }
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ll);
    let load = t0.elapsed().as_secs_f64();
    let trace = cfg.trace;
    let mut e = exec::Engine::new(m, cfg, &tmp);
    e.smt.inc_ms = inc;
    e.smt.hard_ms = hard;
    e.smt.int_ms = int;
    e.smt.deadline = Some(t0 + e.cfg.time);
    e.run(&entry);
    // identities decided by normal form: have the solver decide some of them as well
    let mut confirmed = 0;
    let log = e.ar.poly_log.clone();
    for (a, b) in &log {
        let eq = e.ar.mk(term::O::Eq, 1, *a, *b, term::NIL, 0);
        let ne = e.ar.not(eq);
        match e.smt.check_identity(&e.ar, ne) {
            smt::Res::Unsat => confirmed += 1,
            smt::Res::Sat(_) => {
                *e.st.incomplete.entry("solver refutes an identity".into()).or_insert(0) += 1;
            }
            _ => {}
        }
    }
    let mut names: Vec<String> = e.funcs.iter().map(|f| e.m.funcs[*f as usize].name.clone()).collect();
    names.sort();
    let s = &e.st;
    let q = &e.smt.stats;
    println!("{{");
    println!(
        "\"paths\":{},\"killed\":{},\"forks\":{},\"merges\":{},\"steps\":{},\"asserts\":{},\"asserts_folded\":{},\"asserts_solver\":{},\"asserts_finite\":{},\"unknown_asserts\":{},\"unknown_branches\":{},\"concretisations\":{},\"unexplored\":{},\"timed_out\":{},",
        s.paths, s.killed, s.forks, s.merges, s.steps, s.asserts, s.asserts_folded, s.asserts_solver, s.asserts_finite, s.unknown_asserts, s.unknown_branches, s.conc, s.unexplored, s.timed_out
    );
    println!("\"feas\":{{\"model\":{},\"finite\":{},\"solver\":{},\"cache\":{}}},", s.feas_model, s.feas_dom, s.feas_solver, s.feas_cache);
    println!(
        "\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"ms\":{:.1},\"max_ms\":{:.1}}},",
        q.queries, q.sat, q.unsat, q.unknown, q.fallback, q.ms, q.max_ms
    );
    println!("\"terms\":{},\"vars\":{},\"load_s\":{:.3},\"total_s\":{:.3},", e.ar.nodes.len(), e.ar.vars.len(), load, t0.elapsed().as_secs_f64());
    println!("\"identities\":{{\"by_normal_form\":{},\"given_to_solver\":{},\"confirmed\":{}}},", e.ar.poly_true, log.len(), confirmed);
    println!("\"incomplete\":{{{}}},", s.incomplete.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    println!("\"reach\":{{{}}},", e.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    println!(
        "\"measures\":[{}],",
        e.measures.iter().map(|(k, v)| format!("[{},{},{:e},{},{}]", k.0, k.1, v.0, v.1, v.2)).collect::<Vec<_>>().join(",")
    );
    println!("\"functions\":[{}],", names.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(","));
    println!(
        "\"witnesses\":[{}],",
        e.witnesses.iter().map(|(i, o)| format!("{{\"inputs\":{:?},\"obs\":{:?}}}", i, o)).collect::<Vec<_>>().join(",")
    );
    println!(
        "\"candidates\":[{}]",
        e.cands
            .iter()
            .map(|c| format!(
                "{{\"kind\":\"{}\",\"id\":{},\"msg\":\"{}\",\"inputs\":{:?},\"sched\":{:?},\"extra\":\"{}\",\"stack\":[{}]}}",
                c.kind,
                c.id,
                esc(&c.msg),
                c.inputs,
                c.sched,
                esc(&c.extra),
                c.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    println!("}}");
    if trace {
        let mut v: Vec<_> = e.forkprof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{:8} {}", n, k);
        }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        // parser failures are reported as unsupported instructions
        if std::env::var("SXE_DEBUG").is_ok() {
            eprintln!("{}", i);
            if std::env::var("SXE_BT").is_ok() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
    }));
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        eprintln!("engine failure");
        std::process::exit(3);
    }
}
