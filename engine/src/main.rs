#![allow(dead_code)]
mod exec;
mod explore;
mod expr;
mod ext;
mod ir;
mod mem;
mod parse;
mod prep;
mod smt;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Arc;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn rec_js(r: &explore::PathRec) -> String {
    let names: Vec<String> = r.names.iter().map(|n| js(n)).collect();
    let notes: Vec<String> = r.notes.iter().map(|(k, v)| format!("[{},{}]", js(k), js(&hex(v)))).collect();
    format!(
        "{{\"kind\":{},\"msg\":{},\"names\":[{}],\"model\":{},\"notes\":[{}]}}",
        js(&r.kind),
        js(&r.msg),
        names.join(","),
        js(&hex(&r.model)),
        notes.join(",")
    )
}
fn map_js(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("prep") => prep::prep(&a[2], &a[3]),
        Some("run") => run(&a[2..]),
        _ => {
            eprintln!("usage: symex prep IN.ll OUT.ll | symex run MODULE.ll --entry F [--param k=v] --out FILE");
            std::process::exit(2);
        }
    }
}

fn run(a: &[String]) {
    let path = &a[0];
    let mut entry = String::new();
    let mut out = String::new();
    let mut params: BTreeMap<String, i64> = BTreeMap::new();
    let mut cfg = explore::Cfg {
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8),
        max_steps: 3_000_000,
        max_depth: 400,
        preempt_bound: 2,
        time: 600.0,
        max_viol: 60,
        after_viol: 20.0,
        samples: 64,
        audit_every: 64,
    };
    let mut trace = false;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--entry" => entry = v,
            "--out" => out = v,
            "--param" => {
                let (k, x) = v.split_once('=').unwrap();
                params.insert(k.into(), x.parse().unwrap());
            }
            "--threads" => cfg.threads = v.parse().unwrap(),
            "--steps" => cfg.max_steps = v.parse().unwrap(),
            "--depth" => cfg.max_depth = v.parse().unwrap(),
            "--preempt" => cfg.preempt_bound = v.parse().unwrap(),
            "--time" => cfg.time = v.parse().unwrap(),
            "--after-viol" => cfg.after_viol = v.parse().unwrap(),
            "--max-viol" => cfg.max_viol = v.parse().unwrap(),
            "--samples" => cfg.samples = v.parse().unwrap(),
            "--audit-every" => cfg.audit_every = v.parse().unwrap(),
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    let s = std::fs::read(path).unwrap();
    let m = match parse::P::new(&s).module() {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot parse {}: {}", path, e.0);
            std::process::exit(2);
        }
    };
    let f = match m.func_by_name.get(&entry) {
        Some(f) => *f,
        None => {
            eprintln!("no entry {}", entry);
            std::process::exit(2);
        }
    };
    exec::TRACE.store(trace, std::sync::atomic::Ordering::Relaxed);
    let o = explore::run(&m, f, &cfg, Arc::new(params.clone()));
    let mut j = String::new();
    let s = &o.stats;
    let funcs: Vec<String> = s.funcs.iter().map(|f| js(&m.funcs[*f as usize].name)).collect();
    let _ = write!(
        j,
        "{{\"entry\":{},\"params\":{{{}}},\"complete\":{},\"wall\":{:.3},\"paths\":{},\"pruned\":{},\"left\":{},\"forks\":{},\"insts\":{},\"dom_forced\":{},\"table_decided\":{},\"local_sat\":{},\"range_decided\":{},\"range_bad\":{},\"cache_hits\":{},\"smt_forced\":{},\"asserts\":{},\"assert_queries\":{},\"final_checks\":{},\"audits\":{},\"audit_fail\":{},\"sched_points\":{},\"prefixes\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_time\":{:.3},\"exprs\":{},\"max_vars\":{},\"max_steps\":{},\"step_limit\":{},\"depth_limit\":{},\"covers\":{},\"ends\":{},\"errors\":{},\"viol\":[{}],\"samples\":[{}],\"funcs\":[{}]}}",
        js(&entry),
        params.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        o.complete,
        o.wall,
        s.paths,
        s.pruned,
        o.left,
        s.forks,
        s.insts,
        s.dom_forced,
        s.table_decided,
        s.local_sat,
        s.range_decided,
        s.range_bad,
        s.cache_hits,
        s.smt_forced,
        s.asserts,
        s.assert_queries,
        s.final_checks,
        s.audits,
        o.audit_fail,
        s.sched_points,
        s.replayed_prefixes,
        o.queries,
        o.sat,
        o.unsat,
        o.unknown,
        o.solver_time,
        o.exprs,
        o.max_vars,
        o.max_steps_seen,
        cfg.max_steps,
        cfg.max_depth,
        map_js(&s.covers),
        map_js(&o.ends),
        map_js(&o.errors),
        o.viol.iter().map(rec_js).collect::<Vec<_>>().join(","),
        o.samples.iter().map(rec_js).collect::<Vec<_>>().join(","),
        funcs.join(",")
    );
    if out.is_empty() {
        println!("{}", j);
    } else {
        std::fs::write(&out, j).unwrap();
    }
}
