mod exec;
mod ir;
mod smt;
mod lin;
mod lia;
mod term;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn main() {
    // deep recursion over terms: run on a large stack
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let (mut file, mut name) = (String::new(), String::new());
    let mut timeout = 600u64;
    let mut trace = false;
    let mut xcheck = false;
    let mut hard = 120u64;
    let mut fixed: Option<Vec<u128>> = None;
    let mut steps = 50_000_000u64;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--timeout" => timeout = args.next().unwrap().parse().unwrap(),
            "--hard" => hard = args.next().unwrap().parse().unwrap(),
            "--steps" => steps = args.next().unwrap().parse().unwrap(),
            "--trace" => trace = true,
            "--xcheck" => xcheck = true,
            "--fixed" => {
                fixed = Some(
                    args.next()
                        .unwrap()
                        .split(',')
                        .filter(|x| !x.is_empty())
                        .map(|x| u128::from_str_radix(x.trim_start_matches("0x"), 16).unwrap())
                        .collect(),
                )
            }
            _ => {
                if file.is_empty() {
                    file = a
                } else {
                    name = a
                }
            }
        }
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(&file) {
        Ok(m) => m,
        Err(e) => {
            println!("{{\"status\":\"error\",\"error\":\"{}\"}}", esc(&e));
            return 3;
        }
    };
    if name == "--list" || name.is_empty() {
        for g in &m.globals {
            if g.name.starts_with("h_") && g.kind == ir::GKind::Define {
                println!("{}", g.name);
            }
        }
        return 0;
    }
    if name == "--parse-all" {
        let mut m = m;
        let n = m.globals.len();
        let mut bad = 0;
        for i in 0..n {
            match m.globals[i].kind {
                ir::GKind::Define => {
                    if let Err(e) = m.func(i as u32) {
                        println!("{}", e);
                        bad += 1;
                    }
                }
                ir::GKind::Var => {
                    if let Err(e) = m.global_init(i as u32) {
                        println!("{}", e);
                        bad += 1;
                    }
                }
                _ => {}
            }
        }
        println!("{} globals, {} problems", n, bad);
        return 0;
    }
    let load = t0.elapsed().as_secs_f64();
    let mut e = exec::Exec::new(m);
    e.trace = trace;
    e.s.xcheck = xcheck;
    e.s.hard_ms = hard * 1000;
    e.max_steps = steps;
    let d = Instant::now() + Duration::from_secs(timeout);
    e.deadline = Some(d);
    e.s.deadline = Some(d);
    e.fixed = fixed;
    let r = e.run(&name);
    let wall = t0.elapsed().as_secs_f64();
    let (status, extra) = match &r {
        Ok(None) => {
            let mut miss = vec![];
            for c in &e.rep.declared_checks {
                if !e.rep.checks.contains_key(c) {
                    miss.push(format!("check at line {} never reached", c));
                }
            }
            for c in &e.rep.declared_covers {
                if !e.rep.covers.contains(c) {
                    miss.push(format!("cover at line {} never reached", c));
                }
            }
            for c in &e.rep.declared_must {
                if !e.rep.must_panic.contains_key(c) {
                    miss.push(format!("expected rejection at line {} never reached", c));
                }
            }
            if e.rep.paths == 0 {
                miss.push("no complete path".into());
            }
            if miss.is_empty() {
                ("ok", String::new())
            } else {
                ("vacuous", format!(",\"error\":\"{}\"", esc(&miss.join("; "))))
            }
        }
        Ok(Some(v)) => (
            "violation",
            format!(
                ",\"violation\":{{\"kind\":\"{}\",\"what\":\"{}\",\"inputs\":[{}],\"stack\":[{}]}}",
                v.kind,
                esc(&v.what),
                v.inputs.iter().map(|(w, x)| format!("[{},\"{:x}\"]", w, x)).collect::<Vec<_>>().join(","),
                v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
            ),
        ),
        Err(x) => ("inconclusive", format!(",\"error\":\"{}\"", esc(x))),
    };
    let s = &e.s.stats;
    let stubs: Vec<String> = e.rep.stubs.iter().map(|f| format!("\"{}\"", esc(f))).collect();
    let funcs: Vec<String> = e.rep.funcs.iter().map(|f| format!("\"{}\"", esc(&exec::demangle(f)))).collect();
    println!(
        "{{\"harness\":\"{}\",\"status\":\"{}\"{},\"paths\":{},\"cut\":{},\"rejections\":{},\"steps\":{},\"forks\":{},\"queries\":{},\"cache_hits\":{},\"hard\":{},\"sat\":{},\"unsat\":{},\"xchecks\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},\"terms\":{},\"inputs\":{},\"checks\":{{{}}},\"samples\":[{}],\"functions\":[{}],\"stubs\":[{}]}}",
        name,
        status,
        extra,
        e.rep.paths,
        e.rep.cut,
        e.rep.panics_expected,
        e.rep.steps,
        e.rep.forks,
        s.queries,
        s.cache_hits,
        s.hard,
        s.sat,
        s.unsat,
        s.xchecks,
        s.time,
        s.max_time,
        load,
        wall,
        e.cx.nodes.len(),
        e.rep.max_inputs,
        e.rep
            .checks
            .iter()
            .map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1))
            .chain(e.rep.must_panic.iter().map(|(k, v)| format!("\"p{}\":[{},0]", k, v)))
            .collect::<Vec<_>>()
            .join(","),
        e.rep.samples.iter().map(|s| format!("[{}]", s.iter().map(|(w, v)| format!("[{},\"{:x}\"]", w, v)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","),
        funcs.join(","),
        stubs.join(",")
    );
    if trace {
        let mut v: Vec<_> = e.profile.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(15) {
            eprintln!("{:10} calls {}", n, exec::demangle(k));
        }
        let mut v: Vec<_> = e.forkprof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(15) {
            eprintln!("{:10} forks {}", n, k);
        }
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}
