//! Parallel exhaustive exploration of the paths of one entry function.
use crate::exec::*;
use crate::expr::mask_count;
use crate::ir::*;
use crate::smt::Res;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Cfg {
    pub threads: usize,
    pub max_steps: u64,
    pub max_depth: usize,
    pub preempt_bound: u32,
    pub time: f64,
    pub max_viol: usize,
    /// seconds to go on after the first violation
    pub after_viol: f64,
    pub samples: usize,
    pub audit_every: u64,
}

#[derive(Clone)]
pub struct PathRec {
    pub kind: String,
    pub msg: String,
    pub names: Vec<String>,
    pub model: Vec<u8>,
    pub notes: Vec<(String, Vec<u8>)>,
}

struct Prefix {
    d: Vec<Decision>,
    model: Vec<u8>,
}

struct Shared {
    q: Mutex<VecDeque<Prefix>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    /// when the first violation was found
    viol_at: Mutex<f64>,
    t0: Instant,
    viol: Mutex<BTreeMap<String, Vec<PathRec>>>,
    samples: Mutex<Vec<PathRec>>,
    errors: Mutex<BTreeMap<String, u64>>,
    done: AtomicU64,
    covers: Mutex<BTreeMap<String, (u64, Option<PathRec>)>>,
}

#[derive(Default)]
pub struct Outcome {
    pub stats: Stats,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_time: f64,
    pub exprs: u64,
    pub viol: Vec<PathRec>,
    pub samples: Vec<PathRec>,
    pub errors: BTreeMap<String, u64>,
    pub complete: bool,
    pub wall: f64,
    pub ends: BTreeMap<String, u64>,
    pub max_vars: usize,
    pub max_steps_seen: u64,
    pub audit_fail: u64,
    pub left: usize,
}

fn rec(x: &mut Exec, kind: &str, msg: &str) -> PathRec {
    let model: Vec<u8> = x.st.model.iter().cloned().take(x.st.names.len()).collect();
    let ns = x.st.notes.clone();
    let ex = &mut x.x;
    let notes = ns
        .iter()
        .map(|(k, v)| {
            (
                k.clone(),
                v.iter()
                    .map(|b| match b {
                        Ok(b) => *b,
                        Err(e) => ex.eval(*e, &model) as u8,
                    })
                    .collect(),
            )
        })
        .collect();
    PathRec { kind: kind.into(), msg: msg.into(), names: (*x.st.names).clone(), model, notes }
}

pub fn run(m: &Module, entry: u32, cfg: &Cfg, params: Arc<BTreeMap<String, i64>>) -> Outcome {
    let t0 = Instant::now();
    let sh = Shared {
        q: Mutex::new(VecDeque::new()),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        viol_at: Mutex::new(f64::INFINITY),
        t0,
        viol: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(vec![]),
        errors: Mutex::new(BTreeMap::new()),
        done: AtomicU64::new(0),
        covers: Mutex::new(BTreeMap::new()),
    };
    sh.q.lock().unwrap().push_back(Prefix { d: vec![], model: vec![] });
    let total = Mutex::new(Outcome { complete: true, ..Default::default() });
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            let (sh, total, params) = (&sh, &total, params.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let o = worker(m, entry, cfg, params, sh, t0);
                    let mut t = total.lock().unwrap();
                    merge(&mut t, o);
                })
                .unwrap();
        }
        if std::env::var("SYM_PROGRESS").is_ok() {
            let sh = &sh;
            s.spawn(move || loop {
                std::thread::sleep(Duration::from_secs(5));
                eprintln!("[{:.0}s] paths {} queue {} idle {}", t0.elapsed().as_secs_f64(), sh.done.load(Ordering::Relaxed), sh.q.lock().unwrap().len(), sh.idle.load(Ordering::Relaxed));
                if sh.stop.load(Ordering::Relaxed) {
                    break;
                }
            });
        }
    });
    let mut o = total.into_inner().unwrap();
    o.left += sh.q.lock().unwrap().len();
    if o.left > 0 {
        o.complete = false;
    }
    o.viol = sh.viol.into_inner().unwrap().into_values().flatten().collect();
    o.samples = sh.samples.into_inner().unwrap();
    o.errors = sh.errors.into_inner().unwrap();
    o.wall = t0.elapsed().as_secs_f64();
    o
}

fn merge(t: &mut Outcome, o: Outcome) {
    let (a, b) = (&mut t.stats, o.stats);
    a.paths += b.paths;
    a.pruned += b.pruned;
    a.forks += b.forks;
    a.insts += b.insts;
    a.dom_forced += b.dom_forced;
    a.table_decided += b.table_decided;
    a.local_sat += b.local_sat;
    a.range_decided += b.range_decided;
    a.range_bad += b.range_bad;
    a.cache_hits += b.cache_hits;
    a.smt_forced += b.smt_forced;
    a.asserts += b.asserts;
    a.assert_queries += b.assert_queries;
    a.replayed_prefixes += b.replayed_prefixes;
    a.final_checks += b.final_checks;
    a.audits += b.audits;
    a.sched_points += b.sched_points;
    for (k, v) in b.covers {
        *a.covers.entry(k).or_insert(0) += v;
    }
    a.funcs.extend(b.funcs);
    t.queries += o.queries;
    t.sat += o.sat;
    t.unsat += o.unsat;
    t.unknown += o.unknown;
    t.solver_time += o.solver_time;
    t.exprs += o.exprs;
    t.complete &= o.complete;
    t.audit_fail += o.audit_fail;
    t.left += o.left;
    t.max_vars = t.max_vars.max(o.max_vars);
    t.max_steps_seen = t.max_steps_seen.max(o.max_steps_seen);
    for (k, v) in o.ends {
        *t.ends.entry(k).or_insert(0) += v;
    }
}

fn worker(m: &Module, entry: u32, cfg: &Cfg, params: Arc<BTreeMap<String, i64>>, sh: &Shared, t0: Instant) -> Outcome {
    let mut out = Outcome { complete: true, ..Default::default() };
    let mk = || base_state(m);
    let base = mk();
    let lim = Limits { max_steps: cfg.max_steps, max_depth: cfg.max_depth, preempt_bound: cfg.preempt_bound };
    let mut x = Exec::new(m, base.clone(), lim, params.clone());
    let mut npaths = 0u64;
    let mut exprs_total = 0u64;
    'outer: loop {
        // get a prefix
        let p = {
            let mut q = sh.q.lock().unwrap();
            let mut counted = false;
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    break None;
                }
                if let Some(p) = q.pop_front() {
                    if counted {
                        sh.idle.fetch_sub(1, Ordering::SeqCst);
                    }
                    break Some(p);
                }
                if !counted {
                    counted = true;
                    let n = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if n == cfg.threads {
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cv.notify_all();
                        break None;
                    }
                }
                let r = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap();
                q = r.0;
            }
        };
        let p = match p {
            None => break,
            Some(p) => p,
        };
        // fresh arena when the old one has grown
        if x.x.nodes.len() > 400_000 {
            exprs_total += x.x.created;
            x.x = crate::expr::Exprs::new();
            x.smt.forget();
            x.qcache.clear();
            x.snap = None;
        }
        let snapped = x.snap.is_some();
        let mut st = match &x.snap {
            Some(s) => s.clone(),
            None => base.clone(),
        };
        st.replay = p.d.into_iter().collect();
        if st.replay.is_empty() {
            st.model = Rc::new(p.model);
        } else {
            st.replay_model = Some(p.model);
        }
        x.st = st;
        x.forks.clear();
        x.stats.replayed_prefixes += 1;
        let mut started = if snapped { Ok(()) } else { x.start(entry) };
        loop {
            // run the current state to its end
            let end = match started {
                Ok(()) => x.run(),
                Err(e) => e,
            };
            npaths += 1;
            sh.done.fetch_add(1, Ordering::Relaxed);
            out.max_vars = out.max_vars.max(x.st.names.len());
            out.max_steps_seen = out.max_steps_seen.max(x.st.steps);
            handle_end(&mut x, &end, cfg, sh, &mut out, npaths);
            if t0.elapsed().as_secs_f64() > cfg.time.min(*sh.viol_at.lock().unwrap() + cfg.after_viol) {
                out.left += x.forks.len();
                if !x.forks.is_empty() {
                    out.complete = false;
                }
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                x.forks.clear();
                break 'outer;
            }
            if sh.stop.load(Ordering::Relaxed) {
                out.left += x.forks.len();
                break 'outer;
            }
            // share work
            let big = x.x.nodes.len() > 3_000_000;
            if !x.forks.is_empty() && (big || sh.idle.load(Ordering::Relaxed) > 0) {
                let mut q = sh.q.lock().unwrap();
                let want = if big { x.forks.len() } else { (x.forks.len() / 2).max(1).min(16) };
                if big || q.len() < cfg.threads * 2 {
                    for s in x.forks.drain(0..want) {
                        let d = s.decisions();
                        let model = s.replay_model.clone().unwrap_or_else(|| (*s.model).clone());
                        q.push_back(Prefix { d, model });
                    }
                    sh.cv.notify_all();
                }
            }
            match x.forks.pop() {
                Some(s) => {
                    x.st = s;
                    started = Ok(());
                }
                None => break,
            }
        }
    }
    exprs_total += x.x.created;
    out.exprs = exprs_total;
    out.queries = x.smt.queries;
    out.sat = x.smt.sat;
    out.unsat = x.smt.unsat;
    out.unknown = x.smt.unknown;
    out.solver_time = x.smt.time;
    for (i, b) in x.func_seen.iter().enumerate() {
        if *b {
            x.stats.funcs.insert(i as u32);
        }
    }
    out.stats = x.stats.clone();
    out.stats.paths = npaths;
    out
}

fn handle_end(x: &mut Exec, end: &End, cfg: &Cfg, sh: &Shared, out: &mut Outcome, npaths: u64) {
    let (kind, msg) = match end {
        End::Done => ("done", String::new()),
        End::Pruned => ("pruned", String::new()),
        End::Panic(s) => ("panic", s.clone()),
        End::Assert(s) => ("assert", s.clone()),
        End::StepLimit(s) => ("steplimit", s.clone()),
        End::DepthLimit(s) => ("depthlimit", s.clone()),
        End::Abort(s) => ("abort", s.clone()),
        End::Unsupported(s) => ("unsupported", s.clone()),
        End::Unknown(s) => ("unknown", s.clone()),
    };
    *out.ends.entry(kind.into()).or_insert(0) += 1;
    match end {
        End::Pruned => {
            x.stats.pruned += 1;
            return;
        }
        End::Unsupported(_) | End::Unknown(_) => {
            *sh.errors.lock().unwrap().entry(format!("{}: {}", kind, msg)).or_insert(0) += 1;
            return;
        }
        _ => {}
    }
    // the witness must satisfy the whole path condition
    let cons = x.st.cons.clone();
    let model = x.st.model.clone();
    let mut ok = true;
    for &c in cons.iter() {
        if x.x.eval(c, &model) != 1 {
            ok = false;
        }
    }
    for v in 0..x.st.dom.len() {
        if !crate::expr::mask_get(&x.st.dom[v], model[v]) {
            ok = false;
        }
    }
    x.stats.audits += 1;
    if !ok {
        out.audit_fail += 1;
        *sh.errors.lock().unwrap().entry(format!("audit: witness does not satisfy the path condition ({})", kind)).or_insert(0) += 1;
        return;
    }
    // the solver decides the whole path condition (all of them for the first, then a sample)
    if !matches!(end, End::Done) || npaths < 500 || npaths % cfg.audit_every == 0 {
        let doms: Vec<(u16, crate::expr::Mask)> = (0..x.st.dom.len())
            .filter(|v| mask_count(&x.st.dom[*v]) < 256 || x.st.touched[*v])
            .map(|v| (v as u16, x.st.dom[v]))
            .collect();
        x.stats.final_checks += 1;
        let r = x.smt.check(&mut x.x, &cons, &doms, false);
        if r == Res::Unsat {
            out.audit_fail += 1;
            *sh.errors.lock().unwrap().entry("audit: solver refutes an explored path".into()).or_insert(0) += 1;
            return;
        }
    }
    match end {
        End::Done => {
            // reservoir of samples
            let n = sh.done.load(Ordering::Relaxed);
            let mut s = sh.samples.lock().unwrap();
            if s.len() < cfg.samples {
                s.push(rec(x, kind, ""));
            } else if cfg.samples > 0 {
                let h = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17;
                let k = (h % n.max(1)) as usize;
                if k < cfg.samples {
                    s[k] = rec(x, kind, "");
                }
            }
        }
        _ => {
            let r = rec(x, kind, &msg);
            // key: kind and message without the call stack details
            let key = format!("{}:{}", kind, msg.chars().take(400).collect::<String>());
            {
                let mut at = sh.viol_at.lock().unwrap();
                *at = at.min(sh.t0.elapsed().as_secs_f64());
            }
            let mut v = sh.viol.lock().unwrap();
            let total: usize = v.values().map(|x| x.len()).sum();
            if total < cfg.max_viol {
                let e = v.entry(key).or_default();
                if e.len() < 4 {
                    e.push(r);
                }
            }
        }
    }
}
#[allow(dead_code)]
fn unused(_: BTreeSet<u8>) {}
