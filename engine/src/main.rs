mod exec;
mod expr;
mod ir;
mod mem;
mod smt;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nds(v: &[(String, u16, u128)]) -> String {
    format!("[{}]", v.iter().map(|(n, w, x)| format!("[{},{},\"{}\"]", js(n), w, x)).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut path = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut cfg = exec::Cfg {
        max_steps_path: 200_000_000,
        max_secs: 600.0,
        max_violations: 3,
        samples: 5,
        shard: (0, 1),
        entry: String::new(),
        seed: 1,
        trace: false,
    };
    let mut hard_ms = 120_000;
    let mut i = 1;
    while i < a.len() {
        let v = || a[i + 1].clone();
        match a[i].as_str() {
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--secs" => cfg.max_secs = v().parse().unwrap(),
            "--violations" => cfg.max_violations = v().parse().unwrap(),
            "--samples" => cfg.samples = v().parse().unwrap(),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--hard-ms" => hard_ms = v().parse().unwrap(),
            "--shard" => {
                let s = v();
                let (x, y) = s.split_once('/').unwrap();
                cfg.shard = (x.parse().unwrap(), y.parse().unwrap());
            }
            "--trace" => {
                cfg.trace = true;
                i += 1;
                continue;
            }
            "--list" => {
                let m = ir::Module::load(&path);
                for f in m.functions() {
                    println!("{f}");
                }
                return;
            }
            p => {
                path = p.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    cfg.entry = entry.clone();
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    // deep recursion in expression building is possible: run on a big stack
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let m = ir::Module::load(&path);
            let mut ex = exec::Exec::new(&m, cfg);
            ex.smt.hard_ms = hard_ms;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run()));
            if let Err(e) = r {
                let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                ex.rep.incomplete = Some(format!("engine panic: {msg}"));
            }
            let r = &ex.rep;
            let s = &ex.smt.stats;
            let mut o = String::new();
            let _ = write!(
                o,
                "{{\"entry\":{},\"z3\":{},\"paths\":{},\"paths_end\":{},\"paths_assumed\":{},\"paths_panic_ok\":{},\"checks_concrete\":{},\"checks_proved\":{},\"steps\":{},\"forks\":{},\"max_nd\":{},",
                js(&entry), js(&smt::version()), r.paths, r.paths_end, r.paths_assumed, r.paths_panic_ok, r.checks_concrete, r.checks_proved, r.steps, r.forks, r.max_nd
            );
            let _ = write!(
                o,
                "\"smt\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"external\":{},\"by_int\":{},\"by_bv\":{},\"by_hard\":{},\"secs\":{:.3},\"max_secs\":{:.3},\"nodes\":{}}},",
                s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.external, s.by_int, s.by_bv, s.by_hard, s.secs, s.max_secs, expr::nnodes()
            );
            let _ = write!(o, "\"incomplete\":{},", r.incomplete.as_ref().map(|x| js(x)).unwrap_or("null".into()));
            let _ = write!(o, "\"covers\":{{{}}},", r.covers.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
            let _ = write!(o, "\"labels\":{{{}}},", r.labels.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
            let _ = write!(o, "\"errors\":{{{}}},", r.errors.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
            let _ = write!(
                o,
                "\"violations\":[{}],",
                r.violations
                    .iter()
                    .map(|v| format!("{{\"kind\":{},\"label\":{},\"nd\":{},\"stack\":[{}]}}", js(&v.kind), js(&v.label), nds(&v.nd), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")))
                    .collect::<Vec<_>>()
                    .join(",")
            );
            let _ = write!(
                o,
                "\"samples\":[{}],",
                r.samples
                    .iter()
                    .map(|v| format!("{{\"nd\":{},\"obs\":[{}],\"end\":{}}}", nds(&v.nd), v.obs.iter().map(|(n, x)| format!("[{},\"{}\"]", js(n), x)).collect::<Vec<_>>().join(","), js(&v.end)))
                    .collect::<Vec<_>>()
                    .join(",")
            );
            let _ = write!(o, "\"functions\":{{{}}},", r.functions.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
            let _ = write!(o, "\"wall_s\":{:.3}}}", t0.elapsed().as_secs_f64());
            if out.is_empty() {
                println!("{o}");
            } else {
                std::fs::write(&out, o).unwrap();
            }
        })
        .unwrap();
    h.join().unwrap();
}
