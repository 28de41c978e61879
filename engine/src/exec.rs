//! The symbolic executor: states, decisions, and the interpretation of instructions.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::parse::{cval, sext};
use crate::smt::{Res, Smt};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Frame {
    pub func: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub ret_reg: u32,
    pub cont_block: Option<u32>, // invoke continuation
    pub sp: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Decision {
    /// outcome of a symbolic condition; forced: the other side is infeasible
    Cond { outcome: bool, forced: bool },
    /// concretisation: expression == v?
    Value { v: u64, taken: bool, forced: bool },
}

pub struct Trail {
    pub d: Decision,
    pub prev: Option<Rc<Trail>>,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub sp: u64,
    pub done: bool,
    /// at a scheduling point that has been dealt with
    pub token: bool,
    /// waits until the word at the address is no longer the value (futex)
    pub blocked: Option<(u64, u32)>,
}

#[derive(Clone, Copy)]
pub struct Abs {
    pub lo: u128,
    pub hi: u128,
    pub zeros: u128,
    pub ones: u128,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Rc<Frame>>,
    pub sp: u64,
    pub heap: u64,
    pub dom: Rc<Vec<Mask>>,
    pub touched: Rc<Vec<bool>>,
    pub cons: Rc<Vec<E>>,
    pub model: Rc<Vec<u8>>,
    pub names: Rc<Vec<String>>,
    pub trail: Option<Rc<Trail>>,
    pub replay: VecDeque<Decision>,
    pub replay_model: Option<Vec<u8>>,
    pub inst_dec: Vec<Decision>,
    /// constraints as they were before the first decision of the current instruction
    pub inst_save: Option<(Rc<Vec<Mask>>, Rc<Vec<bool>>, Rc<Vec<E>>)>,
    pub steps: u64,
    pub notes: Rc<Vec<(String, Vec<Result<u8, E>>)>>,
    pub ndec: u32,
    pub asserts: u32,
    pub mark: u64,
    // threads
    pub threads: Rc<Vec<Option<Thread>>>,
    pub cur: u32,
    pub preempts: u32,
    pub sched_token: bool,
    pub blocked: Option<(u64, u32)>,
    /// the variable that stands for the scheduler's choice at this point
    pub swvar: Option<u32>,
    // hashes are symbolic; the variables that stand for them
    pub symhash: bool,
    pub hashes: Rc<Vec<(u64, u32)>>,
    pub tables: Rc<Vec<(u64, bool)>>,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    /// assumption violated: path pruned
    Pruned,
    Panic(String),
    Assert(String),
    StepLimit(String),
    DepthLimit(String),
    Abort(String),
    Unsupported(String),
    Unknown(String),
}

type X<T> = Result<T, End>;

pub struct Limits {
    pub max_steps: u64,
    pub max_depth: usize,
    pub preempt_bound: u32,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub insts: u64,
    pub dom_forced: u64,
    pub table_decided: u64,
    pub local_sat: u64,
    pub range_decided: u64,
    pub range_bad: u64,
    pub cache_hits: u64,
    pub smt_forced: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub replayed_prefixes: u64,
    pub final_checks: u64,
    pub audits: u64,
    pub sched_points: u64,
    pub covers: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
}

pub static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Exec<'m> {
    pub m: &'m Module,
    pub x: Exprs,
    pub smt: Smt,
    /// verdicts of earlier queries (only valid for the current expression arena)
    pub qcache: std::collections::HashMap<(Vec<E>, Vec<(u16, Mask)>), Option<Vec<(u16, u8)>>>,
    pub st: State,
    pub forks: Vec<State>,
    pub in_point: bool,
    pub snap: Option<State>,
    pub stats: Stats,
    pub lim: Limits,
    pub bt: Vec<crate::ext::B>,
    pub func_seen: Vec<bool>,
    pub trace: bool,
    pub profile: bool,
    pub params: Arc<BTreeMap<String, i64>>,
}

pub fn base_state(m: &Module) -> State {
    let mut mem = Mem::new();
    for (a, b) in &m.image {
        mem.write_bytes(*a, b).unwrap();
    }
    State {
        mem,
        frames: vec![],
        sp: STACK_BASE + 0x1000,
        heap: HEAP_BASE + 0x1000,
        dom: Rc::new(vec![]),
        touched: Rc::new(vec![]),
        cons: Rc::new(vec![]),
        model: Rc::new(vec![]),
        names: Rc::new(vec![]),
        trail: None,
        replay: VecDeque::new(),
        replay_model: None,
        inst_dec: vec![],
        inst_save: None,
        steps: 0,
        notes: Rc::new(vec![]),
        ndec: 0,
        asserts: 0,
        mark: 0,
        threads: Rc::new(vec![None]),
        cur: 0,
        preempts: 0,
        sched_token: false,
        blocked: None,
        swvar: None,
        symhash: false,
        hashes: Rc::new(vec![]),
        tables: Rc::new(vec![]),
    }
}

impl State {
    pub fn decisions(&self) -> Vec<Decision> {
        let mut v = vec![];
        let mut t = self.trail.as_ref();
        while let Some(n) = t {
            v.push(n.d.clone());
            t = n.prev.as_ref();
        }
        v.reverse();
        v.extend(self.replay.iter().cloned());
        v
    }
}

fn wmask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, st: State, lim: Limits, params: Arc<BTreeMap<String, i64>>) -> Exec<'m> {
        let bt = m.builtins.iter().map(|n| crate::ext::classify(n)).collect();
        Exec {
            m,
            x: Exprs::new(),
            smt: Smt::new(),
            st,
            forks: vec![],
            snap: None,
            stats: Stats::default(),
            lim,
            bt,
            func_seen: vec![false; m.funcs.len()],
            qcache: Default::default(),
            in_point: false,
            profile: std::env::var("SYM_PROFILE").is_ok(),
            trace: TRACE.load(std::sync::atomic::Ordering::Relaxed),
            params,
        }
    }
    // ---------------------------------------------------------------- values
    pub fn mk(&self, e: E) -> Val {
        let n = self.x.n(e);
        if n.op == Op::Const {
            if n.w <= 64 {
                Val::C(n.k as u64)
            } else {
                Val::W(Arc::new(n.k))
            }
        } else {
            Val::S(e)
        }
    }
    pub fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.x.konst(*c as u128, w),
            Val::W(c) => self.x.konst(**c, w),
            Val::S(e) => {
                debug_assert_eq!(self.x.w(*e), w);
                *e
            }
            Val::Agg(_) => panic!("to_e of aggregate"),
        }
    }
    pub fn stack_short(&self) -> String {
        let mut s = vec![];
        for f in self.st.frames.iter().rev().take(5) {
            s.push(demangle(&self.m.funcs[f.func as usize].name));
        }
        s.join(" <- ")
    }
    pub fn stack_names(&self) -> String {
        let mut s = vec![];
        for f in self.st.frames.iter().rev().take(14) {
            s.push(demangle(&self.m.funcs[f.func as usize].name));
        }
        s.join(" <- ")
    }
    pub fn unsupported<T>(&self, m: &str) -> X<T> {
        Err(End::Unsupported(format!("{} at {}", m, self.stack_names())))
    }
    pub fn merr<T>(&self, r: Result<T, MemErr>) -> X<T> {
        match r {
            Ok(v) => Ok(v),
            Err(MemErr(a)) => Err(End::Abort(format!("invalid memory access {:#x} at {}", a, self.stack_names()))),
        }
    }

    // ---------------------------------------------------------------- decisions
    fn record(&mut self, d: Decision) {
        if self.st.inst_dec.is_empty() {
            self.st.inst_save = Some((self.st.dom.clone(), self.st.touched.clone(), self.st.cons.clone()));
        }
        self.st.inst_dec.push(d.clone());
        self.st.trail = Some(Rc::new(Trail { d, prev: self.st.trail.take() }));
        self.st.ndec += 1;
    }
    pub fn new_var(&mut self, name: String) -> u32 {
        let v = self.st.dom.len() as u32;
        Rc::make_mut(&mut self.st.dom).push(FULL);
        Rc::make_mut(&mut self.st.touched).push(false);
        Rc::make_mut(&mut self.st.names).push(name);
        if self.st.model.len() <= v as usize {
            Rc::make_mut(&mut self.st.model).push(0);
        }
        v
    }
    fn add_dom(&mut self, v: u32, m: &Mask) {
        let d = &mut Rc::make_mut(&mut self.st.dom)[v as usize];
        *d = mask_and(d, m);
    }
    /// add a constraint known to be satisfiable with the rest
    fn add(&mut self, c: E) {
        let n = self.x.n(c);
        match n.op {
            Op::Const => {}
            Op::Tab => {
                let m = self.x.mask(n.b);
                self.add_dom(n.a, &m);
            }
            Op::And => {
                self.add(n.a);
                self.add(n.b);
            }
            _ => {
                if self.st.cons.contains(&c) {
                    return;
                }
                let sup = self.x.support(c).clone();
                for v in sup.iter() {
                    if !self.st.touched[*v as usize] {
                        Rc::make_mut(&mut self.st.touched)[*v as usize] = true;
                    }
                }
                Rc::make_mut(&mut self.st.cons).push(c);
            }
        }
    }
    /// Value of a boolean expression that is the same for every assignment within the domains
    /// (constraints between variables are ignored, so Some is sound, None says nothing).
    fn domain_verdict(&mut self, c: E) -> Option<bool> {
        let n = self.x.n(c);
        match n.op {
            Op::Const => return Some(n.k == 1),
            Op::Tab => {
                let m = self.x.mask(n.b);
                let d = self.st.dom[n.a as usize];
                if mask_empty(&mask_and(&d, &m)) {
                    return Some(false);
                }
                if mask_empty(&mask_andn(&d, &m)) {
                    return Some(true);
                }
                return None;
            }
            Op::Not => return self.domain_verdict(n.a).map(|b| !b),
            Op::And => {
                let a = self.domain_verdict(n.a);
                if a == Some(false) {
                    return a;
                }
                let b = self.domain_verdict(n.b);
                if b == Some(false) {
                    return b;
                }
                if a == Some(true) && b == Some(true) {
                    return a;
                }
                if self.x.support(c).len() > 6 {
                    return None;
                }
            }
            _ => {}
        }
        // intervals and known bits
        if matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
            let mut memo = crate::expr::FxMap::default();
            let a = self.abstr(n.a, &mut memo);
            let b = self.abstr(n.b, &mut memo);
            let w = self.x.w(n.a);
            let sign = 1u128 << (w - 1);
            let r = match n.op {
                Op::Eq => {
                    if a.hi < b.lo || b.hi < a.lo || a.ones & b.zeros != 0 || b.ones & a.zeros != 0 {
                        Some(false)
                    } else if a.lo == a.hi && b.lo == b.hi {
                        Some(true)
                    } else {
                        None
                    }
                }
                Op::Ult | Op::Slt | Op::Ule | Op::Sle => {
                    let signed = matches!(n.op, Op::Slt | Op::Sle);
                    let strict = matches!(n.op, Op::Ult | Op::Slt);
                    // signed comparisons only when neither side can be negative
                    if signed && (a.hi >= sign || b.hi >= sign) {
                        None
                    } else if strict {
                        if a.hi < b.lo {
                            Some(true)
                        } else if a.lo >= b.hi {
                            Some(false)
                        } else {
                            None
                        }
                    } else if a.hi <= b.lo {
                        Some(true)
                    } else if a.lo > b.hi {
                        Some(false)
                    } else {
                        None
                    }
                }
                _ => None,
            };
            if r.is_some() {
                self.stats.range_decided += 1;
                // audit: the solver must agree (all of the first ones, then a sample)
                if self.stats.range_decided < 64 || self.stats.range_decided % 64 == 0 {
                    let doms: Vec<(u16, Mask)> = self.x.support(c).iter().map(|v| (*v, self.st.dom[*v as usize])).collect();
                    let neg = if r == Some(true) { self.x.not(c) } else { c };
                    if let Res::Sat(_) = self.smt.check(&mut self.x, &[neg], &doms, false) {
                        self.stats.range_bad += 1;
                        return None;
                    }
                }
                return r;
            }
        }
        // small product of domains: exact table
        let sup = self.x.support(c).clone();
        let mut prod = 1u64;
        for v in sup.iter() {
            prod = prod.saturating_mul(mask_count(&self.st.dom[*v as usize]) as u64);
            if prod > 512 {
                return None;
            }
        }
        let doms: Vec<Vec<u8>> = sup.iter().map(|v| mask_iter(self.st.dom[*v as usize]).collect()).collect();
        let top = sup.last().map(|v| *v as usize + 1).unwrap_or(0);
        let mut model = vec![0u8; top];
        let mut idx = vec![0usize; sup.len()];
        let mut res: Option<bool> = None;
        loop {
            for (k, v) in sup.iter().enumerate() {
                model[*v as usize] = doms[k][idx[k]];
            }
            let r = self.x.eval(c, &model) == 1;
            match res {
                None => res = Some(r),
                Some(p) if p != r => return None,
                _ => {}
            }
            let mut k = 0;
            loop {
                if k == idx.len() {
                    self.stats.table_decided += 1;
                    return res;
                }
                idx[k] += 1;
                if idx[k] < doms[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    }
    /// over-approximation of the values an expression takes within the domains
    fn abstr(&mut self, e: E, memo: &mut crate::expr::FxMap<E, Abs>) -> Abs {
        let n = self.x.n(e);
        let w = n.w as u32;
        let full = crate::expr::mask_of(w);
        let top = Abs { lo: 0, hi: full, zeros: !full, ones: 0 };
        match n.op {
            Op::Const => return Abs { lo: n.k, hi: n.k, zeros: !n.k, ones: n.k },
            Op::Tab => {
                let d = self.st.dom[n.a as usize];
                let t = &self.x.tables[n.b as usize];
                let mut r = Abs { lo: !0, hi: 0, zeros: !0, ones: !0 };
                for b in mask_iter(d) {
                    let v = t[b as usize] as u128;
                    r.lo = r.lo.min(v);
                    r.hi = r.hi.max(v);
                    r.zeros &= !v;
                    r.ones &= v;
                }
                return if r.lo > r.hi { top } else { r };
            }
            _ => {}
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let from_bits = |zeros: u128, ones: u128| Abs { lo: ones & full, hi: !zeros & full, zeros: zeros | !full, ones: ones & full };
        let from_range = |lo: u128, hi: u128| {
            // common leading bits are known
            let diff = lo ^ hi;
            let keep = if diff == 0 { !0u128 } else if diff.leading_zeros() == 0 { 0 } else { !0u128 << (128 - diff.leading_zeros()) };
            Abs { lo, hi, zeros: (!lo & keep) | !full, ones: lo & keep & full }
        };
        let meet = |a: Abs, b: Abs| Abs { lo: a.lo.max(b.lo), hi: a.hi.min(b.hi), zeros: a.zeros | b.zeros, ones: a.ones | b.ones };
        let r = match n.op {
            Op::ZExt => {
                let a = self.abstr(n.a, memo);
                Abs { lo: a.lo, hi: a.hi, zeros: a.zeros, ones: a.ones }
            }
            Op::SExt => {
                let a = self.abstr(n.a, memo);
                let wa = self.x.w(n.a);
                if a.hi < 1u128 << (wa - 1) {
                    a
                } else {
                    top
                }
            }
            Op::And => {
                let a = self.abstr(n.a, memo);
                let b = self.abstr(n.b, memo);
                let r = from_bits(a.zeros | b.zeros, a.ones & b.ones);
                Abs { hi: r.hi.min(a.hi).min(b.hi), ..r }
            }
            Op::Or => {
                let a = self.abstr(n.a, memo);
                let b = self.abstr(n.b, memo);
                let r = from_bits(a.zeros & b.zeros, a.ones | b.ones);
                Abs { lo: r.lo.max(a.lo).max(b.lo), ..r }
            }
            Op::Xor => {
                let a = self.abstr(n.a, memo);
                let b = self.abstr(n.b, memo);
                from_bits((a.zeros & b.zeros) | (a.ones & b.ones), (a.zeros & b.ones) | (a.ones & b.zeros))
            }
            Op::Add if w <= 64 => {
                let a = self.abstr(n.a, memo);
                let b = self.abstr(n.b, memo);
                let (lo, hi) = (a.lo + b.lo, a.hi + b.hi);
                if hi <= full {
                    from_range(lo, hi)
                } else if lo > full {
                    from_range(lo & full, hi & full)
                } else {
                    top
                }
            }
            Op::Sub if w <= 64 => {
                let a = self.abstr(n.a, memo);
                let b = self.abstr(n.b, memo);
                if a.lo >= b.hi {
                    from_range(a.lo - b.hi, a.hi - b.lo)
                } else {
                    top
                }
            }
            Op::Mul if w <= 64 => {
                let a = self.abstr(n.a, memo);
                let b = self.abstr(n.b, memo);
                match a.hi.checked_mul(b.hi) {
                    Some(h) if h <= full => from_range(a.lo * b.lo, h),
                    _ => top,
                }
            }
            Op::Shl => match self.x.as_const(n.b) {
                Some(k) if k < w as u128 => {
                    let a = self.abstr(n.a, memo);
                    let bits = from_bits((a.zeros << k) | ((1u128 << k) - 1) | !full, (a.ones << k) & full);
                    if k < 64 && w <= 64 && a.hi << k <= full {
                        meet(bits, from_range(a.lo << k, a.hi << k))
                    } else {
                        bits
                    }
                }
                _ => top,
            },
            Op::LShr => match self.x.as_const(n.b) {
                Some(k) if k < w as u128 => {
                    let a = self.abstr(n.a, memo);
                    from_range(a.lo >> k, a.hi >> k)
                }
                _ => top,
            },
            Op::URem => match self.x.as_const(n.b) {
                Some(k) if k > 0 => {
                    let a = self.abstr(n.a, memo);
                    if a.hi < k {
                        a
                    } else {
                        from_range(0, k - 1)
                    }
                }
                _ => top,
            },
            Op::UDiv => match self.x.as_const(n.b) {
                Some(k) if k > 0 => {
                    let a = self.abstr(n.a, memo);
                    from_range(a.lo / k, a.hi / k)
                }
                _ => top,
            },
            Op::Concat => {
                let a = self.abstr(n.a, memo);
                let b = self.abstr(n.b, memo);
                let wb = self.x.w(n.b);
                Abs {
                    lo: (a.lo << wb) | b.lo,
                    hi: (a.hi << wb) | b.hi,
                    zeros: ((a.zeros << wb) | (b.zeros & crate::expr::mask_of(wb))) | !full,
                    ones: (a.ones << wb) | b.ones,
                }
            }
            Op::Extract => {
                let a = self.abstr(n.a, memo);
                let lo_bit = n.b;
                let z = a.zeros >> lo_bit;
                let o = (a.ones >> lo_bit) & full;
                let bits = from_bits(z | !full, o);
                if lo_bit == 0 && a.hi <= full {
                    meet(bits, Abs { lo: a.lo, hi: a.hi, zeros: !full, ones: 0 })
                } else {
                    bits
                }
            }
            Op::Ite => {
                let a = self.abstr(n.b, memo);
                let b = self.abstr(n.c, memo);
                Abs { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), zeros: a.zeros & b.zeros, ones: a.ones & b.ones }
            }
            _ => top,
        };
        memo.insert(e, r);
        r
    }
    fn conjuncts(&mut self, c: E, out: &mut Vec<E>) {
        let n = self.x.n(c);
        if n.op == Op::And {
            self.conjuncts(n.a, out);
            self.conjuncts(n.b, out);
        } else {
            out.push(c);
        }
    }
    /// Is path condition + c satisfiable? Returns a model of the whole path condition + c.
    fn feasible(&mut self, c: E) -> X<Option<Rc<Vec<u8>>>> {
        let mut cj = vec![];
        self.conjuncts(c, &mut cj);
        let mut dom: Rc<Vec<Mask>> = self.st.dom.clone();
        let mut multi: Vec<E> = vec![];
        let mut vars: BTreeSet<u16> = BTreeSet::new();
        for e in cj {
            let n = self.x.n(e);
            match n.op {
                Op::Const => {
                    if n.k == 0 {
                        return Ok(None);
                    }
                }
                Op::Tab => {
                    let m = self.x.mask(n.b);
                    let d = mask_and(&dom[n.a as usize], &m);
                    if mask_empty(&d) {
                        return Ok(None);
                    }
                    Rc::make_mut(&mut dom)[n.a as usize] = d;
                    vars.insert(n.a as u16);
                }
                _ => {
                    for v in self.x.support(e).iter() {
                        vars.insert(*v);
                    }
                    multi.push(e);
                }
            }
        }
        // slice of the existing constraints
        let mut slice: Vec<E> = multi.clone();
        if vars.iter().any(|v| self.st.touched[*v as usize]) {
            let cons = self.st.cons.clone();
            let mut used = vec![false; cons.len()];
            loop {
                let mut changed = false;
                for (i, &k) in cons.iter().enumerate() {
                    if used[i] {
                        continue;
                    }
                    let sup = self.x.support(k).clone();
                    if sup.iter().any(|v| vars.contains(v)) {
                        used[i] = true;
                        changed = true;
                        slice.push(k);
                        for v in sup.iter() {
                            vars.insert(*v);
                        }
                    }
                }
                if !changed {
                    break;
                }
            }
        }
        // candidate model
        let mut model: Vec<u8> = (*self.st.model).clone();
        for v in &vars {
            let d = &dom[*v as usize];
            if !mask_get(d, model[*v as usize]) {
                model[*v as usize] = mask_first(d).unwrap();
            }
        }
        if slice.is_empty() {
            return Ok(Some(Rc::new(model)));
        }
        // local search
        let mut tries = 0;
        'outer: while tries < 12 {
            tries += 1;
            self.x.begin_eval();
            let mut bad = None;
            for &k in &slice {
                if self.x.ev(k, &model) != 1 {
                    bad = Some(k);
                    break;
                }
            }
            let k = match bad {
                None => {
                    self.stats.local_sat += 1;
                    return Ok(Some(Rc::new(model)));
                }
                Some(k) => k,
            };
            let sup = self.x.support(k).clone();
            if sup.len() > 24 {
                break;
            }
            let mut best: Option<(usize, u16, u8)> = None;
            for v in sup.iter().rev() {
                let old = model[*v as usize];
                let mut n = 0;
                for val in mask_iter(dom[*v as usize]) {
                    if val == old {
                        continue;
                    }
                    n += 1;
                    if n > 40 {
                        break;
                    }
                    model[*v as usize] = val;
                    self.x.begin_eval();
                    if self.x.ev(k, &model) == 1 {
                        let mut b = 0;
                        for &s in &slice {
                            if self.x.ev(s, &model) != 1 {
                                b += 1;
                            }
                        }
                        if best.map_or(true, |x| b < x.0) {
                            best = Some((b, *v, val));
                        }
                        if b == 0 {
                            break;
                        }
                    }
                }
                model[*v as usize] = old;
                if best.map_or(false, |x| x.0 == 0) {
                    break;
                }
            }
            match best {
                Some((_, v, val)) => {
                    model[v as usize] = val;
                    continue 'outer;
                }
                None => break,
            }
        }
        let doms: Vec<(u16, Mask)> = vars.iter().map(|v| (*v, dom[*v as usize])).collect();
        let mut key = slice.clone();
        key.sort_unstable();
        key.dedup();
        let res = match self.qcache.get(&(key.clone(), doms.clone())) {
            Some(r) => {
                self.stats.cache_hits += 1;
                match r {
                    None => Res::Unsat,
                    Some(m) => Res::Sat(m.clone()),
                }
            }
            None => {
                let r = self.smt.check(&mut self.x, &slice, &doms, true);
                if self.qcache.len() > 200_000 {
                    self.qcache.clear();
                }
                match &r {
                    Res::Unsat => {
                        self.qcache.insert((key, doms), None);
                    }
                    Res::Sat(m) => {
                        self.qcache.insert((key, doms), Some(m.clone()));
                    }
                    Res::Unknown => {}
                }
                r
            }
        };
        match res {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut model: Vec<u8> = (*self.st.model).clone();
                for (v, b) in m {
                    model[v as usize] = b;
                }
                for &k in &slice {
                    if self.x.eval(k, &model) != 1 {
                        return Err(End::Unsupported("internal: solver model does not satisfy the constraints".into()));
                    }
                }
                Ok(Some(Rc::new(model)))
            }
            Res::Unknown => Err(End::Unknown("solver timeout".into())),
        }
    }
    /// keep the state before the very first decision: every other path starts there
    fn take_snap(&mut self) {
        if self.snap.is_none() && self.st.trail.is_none() && self.st.inst_dec.is_empty() {
            let mut s = self.st.clone();
            s.replay.clear();
            s.replay_model = None;
            self.snap = Some(s);
        }
    }
    fn pop_replay(&mut self) -> Option<Decision> {
        self.take_snap();
        let d = self.st.replay.pop_front()?;
        if self.st.replay.is_empty() {
            if let Some(m) = self.st.replay_model.take() {
                let n = self.st.dom.len();
                let mut m = m;
                if m.len() < n {
                    m.resize(n, 0);
                }
                self.st.model = Rc::new(m);
            }
        }
        Some(d)
    }
    pub fn decide_v(&mut self, v: &Val) -> X<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 == 1),
            Val::S(e) => self.decide(*e),
            _ => self.unsupported("condition value"),
        }
    }
    pub fn decide(&mut self, c: E) -> X<bool> {
        if let Some(b) = self.domain_verdict(c) {
            self.stats.dom_forced += 1;
            return Ok(b);
        }
        if let Some(d) = self.pop_replay() {
            match d {
                Decision::Cond { outcome, forced } => {
                    let cc = if outcome { c } else { self.x.not(c) };
                    self.record(Decision::Cond { outcome, forced });
                    if !forced {
                        self.add(cc);
                    }
                    return Ok(outcome);
                }
                _ => return Err(End::Unsupported("internal: replay mismatch (cond)".into())),
            }
        }
        let model = self.st.model.clone();
        let side = self.x.eval(c, &model) == 1;
        let nc = self.x.not(c);
        let (here, other) = if side { (c, nc) } else { (nc, c) };
        self.take_snap();
        match self.feasible(other)? {
            None => {
                self.stats.smt_forced += 1;
                self.record(Decision::Cond { outcome: side, forced: true });
                Ok(side)
            }
            Some(m2) => {
                self.fork(Decision::Cond { outcome: !side, forced: false }, m2);
                self.record(Decision::Cond { outcome: side, forced: false });
                self.add(here);
                Ok(side)
            }
        }
    }
    fn fork(&mut self, d: Decision, model: Rc<Vec<u8>>) {
        if self.profile {
            eprintln!("FORK {} vars {:?}", self.stack_short(), match &d { Decision::Cond { .. } => "c", _ => "v" });
        }
        let mut s = self.st.clone();
        // undo the trail entries of this instruction: they are replayed
        let k = s.inst_dec.len();
        for _ in 0..k {
            let t = s.trail.take().unwrap();
            s.trail = t.prev.clone();
        }
        let mut q: VecDeque<Decision> = s.inst_dec.drain(..).collect();
        q.push_back(d);
        s.ndec -= k as u32;
        if self.in_point {
            s.sched_token = true;
        }
        s.replay = q;
        s.replay_model = Some((*model).clone());
        // The replayed decisions add their constraints again: with them already in place some of
        // these decisions would look settled and would not be taken from the queue.
        if k > 0 {
            let (d, t, c) = s.inst_save.clone().unwrap();
            s.dom = d;
            s.touched = t;
            s.cons = c;
        }
        self.forks.push(s);
        self.stats.forks += 1;
    }
    /// c must hold; false if infeasible
    pub fn assume(&mut self, c: E) -> X<bool> {
        match self.domain_verdict(c) {
            Some(b) => return Ok(b),
            None => {}
        }
        if !self.st.replay.is_empty() {
            // the recorded prefix is feasible including this assumption
            self.add(c);
            return Ok(true);
        }
        let model = self.st.model.clone();
        if self.x.eval(c, &model) == 1 {
            self.add(c);
            return Ok(true);
        }
        match self.feasible(c)? {
            None => Ok(false),
            Some(m) => {
                self.st.model = m;
                self.add(c);
                Ok(true)
            }
        }
    }
    /// None: c holds on every input of this path; Some(model): counterexample
    pub fn prove(&mut self, c: E) -> X<Option<Rc<Vec<u8>>>> {
        self.stats.asserts += 1;
        match self.domain_verdict(c) {
            Some(true) => return Ok(None),
            Some(false) => return Ok(Some(self.st.model.clone())),
            None => {}
        }
        self.stats.assert_queries += 1;
        let n = self.x.not(c);
        let model = self.st.model.clone();
        if self.x.eval(n, &model) == 1 {
            return Ok(Some(model));
        }
        self.feasible(n)
    }
    pub fn concretize_v(&mut self, v: &Val) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::W(c) => Ok(**c as u64),
            Val::S(e) => self.concretize(*e),
            Val::Agg(_) => self.unsupported("concretize aggregate"),
        }
    }
    pub fn concretize(&mut self, e: E) -> X<u64> {
        let w = self.x.w(e);
        if w > 64 {
            return self.unsupported("concretize wide");
        }
        loop {
            if let Some(k) = self.x.as_const(e) {
                return Ok(k as u64);
            }
            let d = match self.st.replay.front() {
                Some(Decision::Value { .. }) => true,
                _ => false,
            };
            if d {
                if let Some(Decision::Value { v, taken, forced }) = self.pop_replay() {
                    let k = self.x.konst(v as u128, w);
                    let c = self.x.eq(e, k);
                    self.record(Decision::Value { v, taken, forced });
                    if taken {
                        if !forced {
                            self.add(c);
                        }
                        return Ok(v);
                    }
                    let n = self.x.not(c);
                    self.add(n);
                    continue;
                }
            } else if !self.st.replay.is_empty() {
                return Err(End::Unsupported("internal: replay mismatch (value)".into()));
            }
            let model = self.st.model.clone();
            let v = self.x.eval(e, &model) as u64;
            let k = self.x.konst(v as u128, w);
            let c = self.x.eq(e, k);
            let forced = match self.domain_verdict(c) {
                Some(true) => true,
                _ => {
                    let n = self.x.not(c);
                    match self.feasible(n)? {
                        None => true,
                        Some(m2) => {
                            self.fork(Decision::Value { v, taken: false, forced: false }, m2);
                            false
                        }
                    }
                }
            };
            self.record(Decision::Value { v, taken: true, forced });
            if !forced {
                self.add(c);
            }
            return Ok(v);
        }
    }

    // ---------------------------------------------------------------- memory
    pub fn load_int(&mut self, a: u64, bits: u32) -> X<Val> {
        let n = ((bits + 7) / 8) as usize;
        if n <= 8 {
            let r = self.st.mem.read_c(a, n);
            if let Some(v) = self.merr(r)? {
                return Ok(Val::C(v & wmask(bits)));
            }
        }
        let mut e: Option<E> = None;
        let mut all = true;
        let mut cv = 0u128;
        for i in 0..n {
            let r = self.st.mem.byte(a + i as u64);
            match self.merr(r)? {
                Ok(b) => cv |= (b as u128) << (8 * i),
                Err(_) => {
                    all = false;
                    break;
                }
            }
        }
        if all {
            return Ok(crate::parse::mkc(cv, bits));
        }
        for i in 0..n {
            let r = self.st.mem.byte(a + i as u64);
            let b = match self.merr(r)? {
                Ok(b) => self.x.konst(b as u128, 8),
                Err(s) => s,
            };
            e = Some(match e {
                None => b,
                Some(l) => self.x.concat(b, l),
            });
        }
        let mut e = e.unwrap();
        if (n as u32) * 8 != bits {
            e = self.x.extract(e, 0, bits);
        }
        Ok(self.mk(e))
    }
    pub fn store_int(&mut self, a: u64, v: &Val, bits: u32) -> X<()> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            Val::C(c) => {
                if n <= 8 {
                    let r = self.st.mem.write_c(a, *c, n);
                    return self.merr(r);
                }
                let r = self.st.mem.write_c(a, *c, 8);
                self.merr(r)?;
                let r = self.st.mem.fill(a + 8, 0, n as u64 - 8);
                self.merr(r)
            }
            Val::W(c) => {
                let b = c.to_le_bytes();
                let r = self.st.mem.write_bytes(a, &b[..n]);
                self.merr(r)
            }
            Val::S(e) => {
                let mut e = *e;
                if (n as u32) * 8 != bits {
                    e = self.x.zext(e, n as u32 * 8);
                }
                for i in 0..n {
                    let b = self.x.extract(e, 8 * i as u32, 8);
                    let bv = match self.x.as_const(b) {
                        Some(k) => Ok(k as u8),
                        None => Err(b),
                    };
                    let r = self.st.mem.set_byte(a + i as u64, bv);
                    self.merr(r)?;
                }
                Ok(())
            }
            Val::Agg(_) => self.unsupported("store_int agg"),
        }
    }
    pub fn load(&mut self, t: TyId, a: u64) -> X<Val> {
        match self.m.types.get(t) {
            Type::Int(w) => self.load_int(a, *w),
            Type::Ptr | Type::Double => self.load_int(a, 64),
            Type::Float => self.load_int(a, 32),
            Type::Vec(n, e) => {
                let eb = self.m.types.bits(*e);
                if eb % 8 != 0 {
                    // packed, element 0 in the lowest bit
                    let (n, eb) = (*n, eb as u32);
                    let w = n as u32 * eb;
                    if w % 8 != 0 || w > 64 {
                        return self.unsupported("load vector of sub-byte");
                    }
                    let v = self.load_int(a, w)?;
                    let e = self.to_e(&v, w);
                    let mut r = vec![];
                    for k in 0..n as u32 {
                        let x = self.x.extract(e, k * eb, eb);
                        r.push(self.mk(x));
                    }
                    return Ok(Val::Agg(Arc::new(r)));
                }
                let mut v = Vec::with_capacity(*n as usize);
                for k in 0..*n {
                    v.push(self.load_int(a + k * eb / 8, eb as u32)?);
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            Type::Struct(..) | Type::Arr(..) => {
                let n = self.m.types.nelem(t);
                let mut v = Vec::with_capacity(n);
                for k in 0..n {
                    let (o, et) = self.m.types.field_off(t, k);
                    v.push(self.load(et, a + o)?);
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            x => {
                let s = format!("load {:?}", x);
                self.unsupported(&s)
            }
        }
    }
    pub fn store(&mut self, t: TyId, a: u64, v: &Val) -> X<()> {
        match self.m.types.get(t) {
            Type::Int(w) => self.store_int(a, v, *w),
            Type::Ptr | Type::Double => self.store_int(a, v, 64),
            Type::Float => self.store_int(a, v, 32),
            Type::Vec(n, e) => {
                let eb = self.m.types.bits(*e);
                if eb % 8 != 0 {
                    let w = (*n * eb) as u32;
                    if w % 8 != 0 || w > 64 {
                        return self.unsupported("store vector of sub-byte");
                    }
                    let (e, _) = self.flat_bits(t, v)?;
                    let e = self.mk(e);
                    return self.store_int(a, &e, w);
                }
                let vs = match v {
                    Val::Agg(v) => v.clone(),
                    _ => return self.unsupported("store vector"),
                };
                for k in 0..*n {
                    self.store_int(a + k * eb / 8, &vs[k as usize], eb as u32)?;
                }
                Ok(())
            }
            Type::Struct(..) | Type::Arr(..) => {
                let vs = match v {
                    Val::Agg(v) => v.clone(),
                    _ => return self.unsupported("store agg"),
                };
                for k in 0..vs.len() {
                    let (o, et) = self.m.types.field_off(t, k);
                    self.store(et, a + o, &vs[k])?;
                }
                Ok(())
            }
            x => {
                let s = format!("store {:?}", x);
                self.unsupported(&s)
            }
        }
    }
    /// address operand; symbolic addresses are concretised by case split
    pub fn addr(&mut self, v: &Val) -> X<u64> {
        match v {
            Val::C(a) => Ok(*a),
            Val::S(e) => self.concretize(*e),
            _ => self.unsupported("address"),
        }
    }
    fn sym_load(&mut self, t: TyId, e: E) -> X<Val> {
        // table load: address depends on one variable only, all cells concrete
        let bits = match self.m.types.get(t) {
            Type::Int(w) => *w,
            Type::Ptr => 64,
            _ => 0,
        };
        if let Some((v, tid)) = self.x.as_tab(e) {
            if bits > 0 && bits <= 64 {
                let tab = self.x.tables[tid as usize].clone();
                let d = self.st.dom[v as usize];
                let n = ((bits + 7) / 8) as usize;
                let mut out = [0u64; 256];
                let mut ok = true;
                let mut first = None;
                for b in mask_iter(d) {
                    match self.st.mem.read_c(tab[b as usize], n) {
                        Ok(Some(x)) => {
                            out[b as usize] = x & wmask(bits);
                            if first.is_none() {
                                first = Some(x & wmask(bits));
                            }
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    // outside the domain: any value; use the first one
                    for b in 0..256 {
                        if !mask_get(&d, b as u8) {
                            out[b] = first.unwrap_or(0);
                        }
                    }
                    let r = self.x.tab(v, out, bits);
                    return Ok(self.mk(r));
                }
            }
        }
        let a = self.concretize(e)?;
        self.load(t, a)
    }

    // ---------------------------------------------------------------- arithmetic
    pub fn bin_int(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = wmask(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            (sext(x, w) >> y) as u64
                        }
                    }
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                        if y == 0 {
                            return Err(End::Abort(format!("division by zero at {}", self.stack_names())));
                        }
                        match op {
                            BinOp::UDiv => x / y,
                            BinOp::URem => x % y,
                            BinOp::SDiv => sext(x, w).wrapping_div(sext(y, w)) as u64,
                            _ => sext(x, w).wrapping_rem(sext(y, w)) as u64,
                        }
                    }
                    _ => return self.unsupported("float op on int"),
                };
                return Ok(Val::C(r & m));
            }
        }
        let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            _ => return self.unsupported("float op on int"),
        };
        let r = self.x.bin(o, ea, eb);
        Ok(self.mk(r))
    }
    fn fbits(&mut self, v: &Val) -> X<u64> {
        self.concretize_v(v)
    }
    pub fn bin_any(&mut self, op: BinOp, t: TyId, a: &Val, b: &Val) -> X<Val> {
        match self.m.types.get(t) {
            Type::Int(w) => self.bin_int(op, *w, a, b),
            Type::Ptr => self.bin_int(op, 64, a, b),
            Type::Double => {
                let x = f64::from_bits(self.fbits(a)?);
                let y = f64::from_bits(self.fbits(b)?);
                let r = match op {
                    BinOp::FAdd => x + y,
                    BinOp::FSub => x - y,
                    BinOp::FMul => x * y,
                    BinOp::FDiv => x / y,
                    BinOp::FRem => x % y,
                    _ => return self.unsupported("int op on float"),
                };
                Ok(Val::C(r.to_bits()))
            }
            Type::Float => {
                let x = f32::from_bits(self.fbits(a)? as u32);
                let y = f32::from_bits(self.fbits(b)? as u32);
                let r = match op {
                    BinOp::FAdd => x + y,
                    BinOp::FSub => x - y,
                    BinOp::FMul => x * y,
                    BinOp::FDiv => x / y,
                    BinOp::FRem => x % y,
                    _ => return self.unsupported("int op on float"),
                };
                Ok(Val::C(r.to_bits() as u64))
            }
            Type::Vec(n, e) => {
                let (va, vb) = match (a, b) {
                    (Val::Agg(x), Val::Agg(y)) => (x.clone(), y.clone()),
                    _ => return self.unsupported("vector op"),
                };
                let mut r = Vec::with_capacity(*n as usize);
                for k in 0..*n as usize {
                    r.push(self.bin_any(op, *e, &va[k], &vb[k])?);
                }
                Ok(Val::Agg(Arc::new(r)))
            }
            _ => self.unsupported("bin type"),
        }
    }
    pub fn icmp(&mut self, p: Pred, t: TyId, a: &Val, b: &Val) -> X<Val> {
        let w = match self.m.types.get(t) {
            Type::Int(w) => *w,
            Type::Ptr => 64,
            Type::Vec(n, e) => {
                let (va, vb) = match (a, b) {
                    (Val::Agg(x), Val::Agg(y)) => (x.clone(), y.clone()),
                    _ => return self.unsupported("vector icmp"),
                };
                let mut r = Vec::with_capacity(*n as usize);
                for k in 0..*n as usize {
                    r.push(self.icmp(p, *e, &va[k], &vb[k])?);
                }
                return Ok(Val::Agg(Arc::new(r)));
            }
            _ => return self.unsupported("icmp type"),
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return Ok(Val::C(r as u64));
        }
        let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
        let r = match p {
            Pred::Eq => self.x.eq(ea, eb),
            Pred::Ne => {
                let e = self.x.eq(ea, eb);
                self.x.not(e)
            }
            Pred::Ugt => self.x.bin(Op::Ult, eb, ea),
            Pred::Uge => self.x.bin(Op::Ule, eb, ea),
            Pred::Ult => self.x.bin(Op::Ult, ea, eb),
            Pred::Ule => self.x.bin(Op::Ule, ea, eb),
            Pred::Sgt => self.x.bin(Op::Slt, eb, ea),
            Pred::Sge => self.x.bin(Op::Sle, eb, ea),
            Pred::Slt => self.x.bin(Op::Slt, ea, eb),
            Pred::Sle => self.x.bin(Op::Sle, ea, eb),
        };
        Ok(self.mk(r))
    }
    fn fcmp(&mut self, p: &str, t: TyId, a: &Val, b: &Val) -> X<Val> {
        let (x, y) = match self.m.types.get(t) {
            Type::Double => (f64::from_bits(self.fbits(a)?), f64::from_bits(self.fbits(b)?)),
            Type::Float => (f32::from_bits(self.fbits(a)? as u32) as f64, f32::from_bits(self.fbits(b)? as u32) as f64),
            _ => return self.unsupported("fcmp type"),
        };
        let un = x.is_nan() || y.is_nan();
        let r = match p {
            "oeq" => x == y,
            "ogt" => x > y,
            "oge" => x >= y,
            "olt" => x < y,
            "ole" => x <= y,
            "one" => !un && x != y,
            "ord" => !un,
            "ueq" => un || x == y,
            "ugt" => un || x > y,
            "uge" => un || x >= y,
            "ult" => un || x < y,
            "ule" => un || x <= y,
            "une" => un || x != y,
            "uno" => un,
            "true" => true,
            "false" => false,
            _ => return self.unsupported("fcmp"),
        };
        Ok(Val::C(r as u64))
    }
    fn flat_bits(&mut self, t: TyId, v: &Val) -> X<(E, u32)> {
        // bit image of a scalar or vector
        match self.m.types.get(t) {
            Type::Vec(n, e) => {
                let vs = match v {
                    Val::Agg(v) => v.clone(),
                    _ => return self.unsupported("flat vec"),
                };
                let eb = self.m.types.bits(*e) as u32;
                let mut acc: Option<E> = None;
                for k in 0..*n as usize {
                    let x = self.to_e(&vs[k], eb);
                    acc = Some(match acc {
                        None => x,
                        Some(l) => self.x.concat(x, l),
                    });
                }
                Ok((acc.unwrap(), eb * *n as u32))
            }
            _ => {
                let b = self.m.types.bits(t) as u32;
                Ok((self.to_e(v, b), b))
            }
        }
    }
    fn cast(&mut self, op: CastOp, ft: TyId, tt: TyId, v: &Val) -> X<Val> {
        if let (Type::Vec(n, fe), Type::Vec(n2, te)) = (self.m.types.get(ft).clone(), self.m.types.get(tt).clone()) {
            if n == n2 && op != CastOp::BitCast {
                let vs = match v {
                    Val::Agg(v) => v.clone(),
                    _ => return self.unsupported("vec cast"),
                };
                let mut r = vec![];
                for k in 0..n as usize {
                    r.push(self.cast(op, fe, te, &vs[k])?);
                }
                return Ok(Val::Agg(Arc::new(r)));
            }
        }
        let fb = self.m.types.bits(ft) as u32;
        let tb = self.m.types.bits(tt) as u32;
        match op {
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if tb == fb {
                    return Ok(v.clone());
                }
                if tb < fb {
                    return self.cast_trunc(v, fb, tb);
                }
                self.cast_zext(v, fb, tb)
            }
            CastOp::Trunc => self.cast_trunc(v, fb, tb),
            CastOp::ZExt => self.cast_zext(v, fb, tb),
            CastOp::SExt => match v {
                Val::C(c) if tb <= 64 => Ok(Val::C(sext(*c, fb) as u64 & wmask(tb))),
                _ => {
                    let e = self.to_e(v, fb);
                    let r = self.x.sext(e, tb);
                    Ok(self.mk(r))
                }
            },
            CastOp::BitCast => {
                let fv = matches!(self.m.types.get(ft), Type::Vec(..));
                let tv = matches!(self.m.types.get(tt), Type::Vec(..));
                if !fv && !tv {
                    return Ok(v.clone());
                }
                let (e, b) = self.flat_bits(ft, v)?;
                if b > 128 {
                    return self.unsupported("bitcast wide");
                }
                if let Type::Vec(n, te) = self.m.types.get(tt).clone() {
                    let eb = self.m.types.bits(te) as u32;
                    let mut r = vec![];
                    for k in 0..n as u32 {
                        let x = self.x.extract(e, k * eb, eb);
                        r.push(self.mk(x));
                    }
                    Ok(Val::Agg(Arc::new(r)))
                } else {
                    Ok(self.mk(e))
                }
            }
            CastOp::UiToFp => {
                let c = self.concretize_v(v)?;
                Ok(match self.m.types.get(tt) {
                    Type::Double => Val::C((c as f64).to_bits()),
                    _ => Val::C((c as f32).to_bits() as u64),
                })
            }
            CastOp::SiToFp => {
                let c = sext(self.concretize_v(v)?, fb);
                Ok(match self.m.types.get(tt) {
                    Type::Double => Val::C((c as f64).to_bits()),
                    _ => Val::C((c as f32).to_bits() as u64),
                })
            }
            CastOp::FpExt => {
                let c = f32::from_bits(self.concretize_v(v)? as u32);
                Ok(Val::C((c as f64).to_bits()))
            }
            CastOp::FpTrunc => {
                let c = f64::from_bits(self.concretize_v(v)?);
                Ok(Val::C((c as f32).to_bits() as u64))
            }
            CastOp::FpToUi | CastOp::FpToSi => {
                let bits = self.concretize_v(v)?;
                let d = match self.m.types.get(ft) {
                    Type::Double => f64::from_bits(bits),
                    _ => f32::from_bits(bits as u32) as f64,
                };
                let r = if op == CastOp::FpToUi { d as u64 } else { d as i64 as u64 };
                Ok(Val::C(r & wmask(tb)))
            }
        }
    }
    pub fn cast_trunc(&mut self, v: &Val, fb: u32, tb: u32) -> X<Val> {
        match v {
            Val::C(c) => Ok(Val::C(c & wmask(tb))),
            Val::W(c) => Ok(crate::parse::mkc(**c, tb)),
            _ => {
                let e = self.to_e(v, fb);
                let r = self.x.extract(e, 0, tb);
                Ok(self.mk(r))
            }
        }
    }
    pub fn cast_zext(&mut self, v: &Val, fb: u32, tb: u32) -> X<Val> {
        match v {
            Val::C(c) => Ok(if tb <= 64 { Val::C(*c) } else { Val::W(Arc::new(*c as u128)) }),
            Val::W(c) => Ok(Val::W(c.clone())),
            _ => {
                let e = self.to_e(v, fb);
                let r = self.x.zext(e, tb);
                Ok(self.mk(r))
            }
        }
    }

    // ---------------------------------------------------------------- control
    #[inline]
    pub fn val(&self, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => self.st.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    #[inline]
    fn top(&mut self) -> &mut Frame {
        Rc::make_mut(self.st.frames.last_mut().unwrap())
    }
    #[inline]
    pub fn set(&mut self, dst: u32, v: Val) {
        if dst != u32::MAX {
            let f = self.top();
            f.regs[dst as usize] = v;
        }
    }
    fn jump(&mut self, to: u32) {
        let m = self.m;
        let f = self.top();
        let from = f.block;
        let blk = &m.funcs[f.func as usize].blocks[to as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                for (b, o) in inc {
                    if *b == from {
                        let v = match o {
                            Opnd::R(r) => f.regs[*r as usize].clone(),
                            Opnd::K(v) => v.clone(),
                        };
                        f.regs[*d as usize] = v;
                        break;
                    }
                }
            } else {
                let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
                for (d, inc) in &blk.phis {
                    for (b, o) in inc {
                        if *b == from {
                            let v = match o {
                                Opnd::R(r) => f.regs[*r as usize].clone(),
                                Opnd::K(v) => v.clone(),
                            };
                            tmp.push((*d, v));
                            break;
                        }
                    }
                }
                for (d, v) in tmp {
                    f.regs[d as usize] = v;
                }
            }
        }
        f.block = to;
        f.ip = 0;
    }
    pub fn push_call(&mut self, fid: u32, args: Vec<Val>, ret_reg: u32, cont: Option<u32>) -> X<()> {
        let f = &self.m.funcs[fid as usize];
        if self.st.frames.len() >= self.lim.max_depth {
            return Err(End::DepthLimit(format!("recursion deeper than {} frames: {}", self.lim.max_depth, self.stack_names())));
        }
        self.func_seen[fid as usize] = true;
        let sp = self.st.sp;
        let mut regs = vec![Val::C(0); f.nregs as usize];
        let mut args = args;
        // byval parameters: private copy
        for (i, bv) in f.param_byval.iter().enumerate() {
            if let Some(sz) = bv {
                let src = self.addr(&args[i].clone())?;
                let a = (self.st.sp + 15) / 16 * 16;
                self.st.sp = a + sz;
                let r = self.st.mem.copy(a, src, *sz);
                self.merr(r)?;
                args[i] = Val::C(a);
            }
        }
        for (i, v) in args.into_iter().enumerate() {
            if i < f.nparams as usize {
                regs[i] = v;
            }
        }
        self.st.frames.push(Rc::new(Frame { func: fid, block: 0, ip: 0, regs, ret_reg, cont_block: cont, sp }));
        if self.trace {
            eprintln!("{}> {}", " ".repeat(self.st.frames.len()), demangle(&f.name));
        }
        Ok(())
    }
    fn advance(&mut self) {
        self.top().ip += 1;
    }

    /// run the current state until its path ends
    pub fn start(&mut self, entry: u32) -> Result<(), End> {
        self.push_call(entry, vec![], u32::MAX, None)
    }
    pub fn run(&mut self) -> End {
        loop {
            match self.step() {
                Ok(true) => {}
                Ok(false) => return End::Done,
                Err(e) => return e,
            }
        }
    }

    fn step(&mut self) -> X<bool> {
        let m = self.m;
        if !self.st.inst_dec.is_empty() {
            self.st.inst_dec.clear();
            self.st.inst_save = None;
        }
        self.st.steps += 1;
        self.stats.insts += 1;
        if self.st.steps > self.lim.max_steps {
            return Err(End::StepLimit(format!("more than {} instructions: {}", self.lim.max_steps, self.stack_names())));
        }
        let (func, block, ip) = {
            let f = self.st.frames.last().unwrap();
            (f.func, f.block, f.ip)
        };
        let (dst, ins) = &m.funcs[func as usize].blocks[block as usize].insts[ip as usize];
        let dst = *dst;
        self.in_point = false;
        if self.st.cur != 0 && self.sched_step(ins)? {
            return Ok(true);
        }
        match ins {
            Inst::Bin(op, t, a, b) => {
                let (x, y) = (self.val(a), self.val(b));
                let r = match m.types.get(*t) {
                    Type::Int(w) => {
                        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                            if let Val::S(e) = y {
                                let z = self.x.konst(0, *w);
                                let c = self.x.eq(e, z);
                                if self.decide(c)? {
                                    return Err(End::Abort("division by zero".into()));
                                }
                            }
                        }
                        self.bin_int(*op, *w, &x, &y)?
                    }
                    _ => self.bin_any(*op, *t, &x, &y)?,
                };
                self.set(dst, r);
                self.advance();
            }
            Inst::ICmp(p, t, a, b) => {
                let (x, y) = (self.val(a), self.val(b));
                let r = self.icmp(*p, *t, &x, &y)?;
                self.set(dst, r);
                self.advance();
            }
            Inst::FCmp(p, t, a, b) => {
                let (x, y) = (self.val(a), self.val(b));
                let r = self.fcmp(p, *t, &x, &y)?;
                self.set(dst, r);
                self.advance();
            }
            Inst::FNeg(t, a) => {
                let x = self.val(a);
                let b = self.fbits(&x)?;
                let r = match m.types.get(*t) {
                    Type::Double => (-f64::from_bits(b)).to_bits(),
                    _ => (-f32::from_bits(b as u32)).to_bits() as u64,
                };
                self.set(dst, Val::C(r));
                self.advance();
            }
            Inst::Cast(op, ft, tt, a) => {
                let x = self.val(a);
                let r = self.cast(*op, *ft, *tt, &x)?;
                self.set(dst, r);
                self.advance();
            }
            Inst::Gep(base, off, dy) => {
                let b = self.val(base);
                let r = self.gep(b, *off, dy)?;
                self.set(dst, r);
                self.advance();
            }
            Inst::Load(t, p, _) => {
                let pv = self.val(p);
                let a = match pv {
                    Val::C(a) => a,
                    Val::S(e) => {
                        let r = self.sym_load(*t, e)?;
                        self.set(dst, r);
                        self.advance();
                        return Ok(true);
                    }
                    _ => return self.unsupported("load address"),
                };
                let r = self.load(*t, a)?;
                self.set(dst, r);
                self.advance();
            }
            Inst::Store(t, v, p, _) => {
                let pv = self.val(p);
                let a = self.addr(&pv)?;
                let v = self.val(v);
                self.store(*t, a, &v)?;
                self.advance();
            }
            Inst::Alloca(t, n, al) => {
                let nv = self.val(n);
                let k = self.concretize_v(&nv)?;
                let al = (*al).max(1);
                let a = (self.st.sp + al - 1) / al * al;
                self.st.sp = a + m.types.size(*t) * k;
                if self.st.sp - STACK_BASE - ((self.st.cur as u64) << 26) > (1 << 26) - 4096 {
                    return Err(End::DepthLimit(format!("stack exhausted: {}", self.stack_names())));
                }
                self.set(dst, Val::C(a));
                self.advance();
            }
            Inst::Select(ct, t, c, a, b) => {
                let cv = self.val(c);
                let r = match &cv {
                    Val::C(k) => {
                        if *k & 1 == 1 {
                            self.val(a)
                        } else {
                            self.val(b)
                        }
                    }
                    Val::S(e) => {
                        let (x, y) = (self.val(a), self.val(b));
                        let ity = match m.types.get(*t) {
                            Type::Int(w) => Some(*w),
                            _ => None,
                        };
                        if let (Some(w), None) = (ity, self.domain_verdict(*e)) {
                            let (ex, ey) = (self.to_e(&x, w), self.to_e(&y, w));
                            let r = self.x.ite(*e, ex, ey);
                            self.mk(r)
                        } else if x == y {
                            x
                        } else if self.decide(*e)? {
                            x
                        } else {
                            y
                        }
                    }
                    Val::Agg(cs) => {
                        let _ = ct;
                        let (x, y) = (self.val(a), self.val(b));
                        let (xs, ys) = match (x, y) {
                            (Val::Agg(x), Val::Agg(y)) => (x, y),
                            _ => return self.unsupported("vector select"),
                        };
                        let eb = match m.types.get(*t) {
                            Type::Vec(_, e) => m.types.bits(*e) as u32,
                            _ => return self.unsupported("vector select type"),
                        };
                        let mut r = vec![];
                        for k in 0..cs.len() {
                            match &cs[k] {
                                Val::C(c) => r.push(if c & 1 == 1 { xs[k].clone() } else { ys[k].clone() }),
                                Val::S(e) => {
                                    let (p, q) = (self.to_e(&xs[k], eb), self.to_e(&ys[k], eb));
                                    let z = self.x.ite(*e, p, q);
                                    r.push(self.mk(z));
                                }
                                _ => return self.unsupported("vector select cond"),
                            }
                        }
                        Val::Agg(Arc::new(r))
                    }
                    _ => return self.unsupported("select cond"),
                };
                self.set(dst, r);
                self.advance();
            }
            Inst::Br(t) => self.jump(*t),
            Inst::CondBr(c, t, f) => {
                let cv = match c {
                    Opnd::R(r) => match &self.st.frames.last().unwrap().regs[*r as usize] {
                        Val::C(k) => Ok(*k & 1 == 1),
                        Val::S(e) => Err(*e),
                        _ => return self.unsupported("br cond"),
                    },
                    Opnd::K(v) => Ok(cval(v) & 1 == 1),
                };
                let b = match cv {
                    Ok(b) => b,
                    Err(e) => self.decide(e)?,
                };
                self.jump(if b { *t } else { *f });
            }
            Inst::Switch(t, v, d, cs) => {
                let vv = self.val(v);
                let w = m.types.bits(*t) as u32;
                match vv {
                    Val::C(k) => {
                        let mut to = *d;
                        for (c, l) in cs {
                            if let Val::C(c) = c {
                                if *c == k {
                                    to = *l;
                                    break;
                                }
                            }
                        }
                        self.jump(to);
                    }
                    Val::W(k) => {
                        let mut to = *d;
                        for (c, l) in cs {
                            let cv = match c {
                                Val::C(x) => *x as u128,
                                Val::W(x) => **x,
                                _ => unreachable!(),
                            };
                            if cv == *k {
                                to = *l;
                                break;
                            }
                        }
                        self.jump(to);
                    }
                    Val::S(e) => {
                        // group the cases by target, decide target by target
                        let mut targets: Vec<u32> = vec![];
                        for (_, l) in cs {
                            if !targets.contains(l) && *l != *d {
                                targets.push(*l);
                            }
                        }
                        let mut taken = None;
                        for tg in targets {
                            let mut cond = self.x.konst(0, 1);
                            for (c, l) in cs {
                                if *l == tg {
                                    let k = self.to_e(c, w);
                                    let q = self.x.eq(e, k);
                                    cond = self.x.bin(Op::Or, cond, q);
                                }
                            }
                            if self.decide(cond)? {
                                taken = Some(tg);
                                break;
                            }
                        }
                        self.jump(taken.unwrap_or(*d));
                    }
                    _ => return self.unsupported("switch"),
                }
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|o| self.val(o));
                return self.ret(r);
            }
            Inst::Unreachable => return Err(End::Abort(format!("unreachable at {}", self.stack_names()))),
            Inst::Call(cal, args, rt, cont) => {
                let mut vals: Vec<Val> = Vec::with_capacity(args.len());
                for (_, o) in args {
                    vals.push(self.val(o));
                }
                match cal {
                    Callee::Func(f) => {
                        self.push_call(*f, vals, dst, *cont)?;
                    }
                    Callee::Builtin(b) => return self.call_builtin(*b, vals, args, *rt, dst, *cont),
                    Callee::Ind(o) => {
                        let a = self.val(o);
                        let a = self.addr(&a)?;
                        match m.addr_func.get(&a) {
                            Some(Callee::Func(f)) => self.push_call(*f, vals, dst, *cont)?,
                            Some(Callee::Builtin(b)) => return self.call_builtin(*b, vals, args, *rt, dst, *cont),
                            _ => return Err(End::Abort(format!("call of invalid address {:#x} at {}", a, self.stack_names()))),
                        }
                    }
                    Callee::Asm(s, _) => {
                        let r = if s.is_empty() {
                            Val::C(0)
                        } else if s.starts_with("/*") {
                            vals.get(0).cloned().unwrap_or(Val::C(0))
                        } else if s.contains("cpuid") || s.contains("xgetbv") {
                            m.types.zero(*rt)
                        } else {
                            return self.unsupported(&format!("asm {}", s));
                        };
                        self.finish_call(dst, r, *cont);
                    }
                }
            }
            Inst::ExtractValue(a, ix) => {
                let mut v = self.val(a);
                for i in ix {
                    v = match v {
                        Val::Agg(x) => x[*i as usize].clone(),
                        _ => return self.unsupported("extractvalue"),
                    };
                }
                self.set(dst, v);
                self.advance();
            }
            Inst::InsertValue(_, a, v, ix) => {
                let agg = self.val(a);
                let v = self.val(v);
                fn ins(a: Val, ix: &[u32], v: Val) -> Option<Val> {
                    if ix.is_empty() {
                        return Some(v);
                    }
                    match a {
                        Val::Agg(x) => {
                            let mut y = (*x).clone();
                            let k = ix[0] as usize;
                            let old = y[k].clone();
                            y[k] = ins(old, &ix[1..], v)?;
                            Some(Val::Agg(Arc::new(y)))
                        }
                        _ => None,
                    }
                }
                match ins(agg, ix, v) {
                    Some(r) => self.set(dst, r),
                    None => return self.unsupported("insertvalue"),
                }
                self.advance();
            }
            Inst::ExtractElement(_, a, i) => {
                let v = self.val(a);
                let iv = self.val(i);
                let k = self.concretize_v(&iv)? as usize;
                match v {
                    Val::Agg(x) if k < x.len() => {
                        let r = x[k].clone();
                        self.set(dst, r)
                    }
                    _ => return self.unsupported("extractelement"),
                }
                self.advance();
            }
            Inst::InsertElement(_, a, v, i) => {
                let agg = self.val(a);
                let v = self.val(v);
                let iv = self.val(i);
                let k = self.concretize_v(&iv)? as usize;
                match agg {
                    Val::Agg(x) if k < x.len() => {
                        let mut y = (*x).clone();
                        y[k] = v;
                        self.set(dst, Val::Agg(Arc::new(y)))
                    }
                    _ => return self.unsupported("insertelement"),
                }
                self.advance();
            }
            Inst::Shuffle(_, a, b, mask) => {
                let (x, y) = match (self.val(a), self.val(b)) {
                    (Val::Agg(x), Val::Agg(y)) => (x, y),
                    _ => return self.unsupported("shuffle"),
                };
                let mut r = vec![];
                for i in mask {
                    let i = *i as usize;
                    r.push(if i < x.len() {
                        x[i].clone()
                    } else if i - x.len() < y.len() {
                        y[i - x.len()].clone()
                    } else {
                        Val::C(0)
                    });
                }
                self.set(dst, Val::Agg(Arc::new(r)));
                self.advance();
            }
            Inst::Rmw(op, t, p, v) => {
                let pv = self.val(p);
                let a = self.addr(&pv)?;
                let old = self.load(*t, a)?;
                let v = self.val(v);
                let w = m.types.bits(*t) as u32;
                let new = match op {
                    RmwOp::Xchg => v,
                    RmwOp::Add => self.bin_int(BinOp::Add, w, &old, &v)?,
                    RmwOp::Sub => self.bin_int(BinOp::Sub, w, &old, &v)?,
                    RmwOp::And => self.bin_int(BinOp::And, w, &old, &v)?,
                    RmwOp::Or => self.bin_int(BinOp::Or, w, &old, &v)?,
                    RmwOp::Xor => self.bin_int(BinOp::Xor, w, &old, &v)?,
                    RmwOp::Nand => {
                        let r = self.bin_int(BinOp::And, w, &old, &v)?;
                        self.bin_int(BinOp::Xor, w, &r, &Val::C(wmask(w)))?
                    }
                    RmwOp::Max | RmwOp::Min | RmwOp::UMax | RmwOp::UMin => {
                        let (x, y) = (self.concretize_v(&old)?, self.concretize_v(&v)?);
                        let r = match op {
                            RmwOp::UMax => x.max(y),
                            RmwOp::UMin => x.min(y),
                            RmwOp::Max => sext(x, w).max(sext(y, w)) as u64 & wmask(w),
                            _ => sext(x, w).min(sext(y, w)) as u64 & wmask(w),
                        };
                        Val::C(r)
                    }
                };
                self.store(*t, a, &new)?;
                self.set(dst, old);
                self.advance();
            }
            Inst::CmpXchg(t, p, c, n) => {
                let pv = self.val(p);
                let a = self.addr(&pv)?;
                let old = self.load(*t, a)?;
                let (c, n) = (self.val(c), self.val(n));
                let eq = self.icmp(Pred::Eq, *t, &old, &c)?;
                let ok = self.decide_v(&eq)?;
                if ok {
                    self.store(*t, a, &n)?;
                }
                self.set(dst, Val::Agg(Arc::new(vec![old, Val::C(ok as u64)])));
                self.advance();
            }
            Inst::Fence => self.advance(),
            Inst::Freeze(a) => {
                let v = self.val(a);
                self.set(dst, v);
                self.advance();
            }
            Inst::Landing => return self.unsupported("landingpad"),
            Inst::Unsupported(s) => return self.unsupported(s),
        }
        Ok(true)
    }
    fn gep(&mut self, b: Val, off: i64, dy: &[(Opnd, u64, u32)]) -> X<Val> {
        let mut acc = match &b {
            Val::C(c) => Val::C(c.wrapping_add(off as u64)),
            Val::S(e) => {
                let k = self.x.konst(off as u64 as u128, 64);
                let r = self.x.bin(Op::Add, *e, k);
                self.mk(r)
            }
            _ => return self.unsupported("gep base"),
        };
        for (o, scale, w) in dy {
            let iv = self.val(o);
            match (&acc, &iv) {
                (Val::C(a), Val::C(i)) => acc = Val::C(a.wrapping_add((sext(*i, *w) as u64).wrapping_mul(*scale))),
                _ => {
                    let ie = self.to_e(&iv, *w);
                    let ie = self.x.sext(ie, 64);
                    let k = self.x.konst(*scale as u128, 64);
                    let s = self.x.bin(Op::Mul, ie, k);
                    let ae = self.to_e(&acc, 64);
                    let r = self.x.bin(Op::Add, ae, s);
                    acc = self.mk(r);
                }
            }
        }
        Ok(acc)
    }
    pub fn finish_call(&mut self, dst: u32, r: Val, cont: Option<u32>) {
        self.set(dst, r);
        match cont {
            None => self.advance(),
            Some(b) => self.jump(b),
        }
    }
    fn ret(&mut self, r: Option<Val>) -> X<bool> {
        let f = self.st.frames.pop().unwrap();
        self.st.sp = f.sp;
        if self.trace {
            eprintln!("{}< {} = {:?}", " ".repeat(self.st.frames.len() + 1), demangle(&self.m.funcs[f.func as usize].name), r);
        }
        if self.st.frames.is_empty() {
            return self.thread_end();
        }
        let (rr, cb) = (f.ret_reg, f.cont_block);
        drop(f);
        if let Some(v) = r {
            self.set(rr, v);
        }
        match cb {
            None => self.advance(),
            Some(b) => self.jump(b),
        }
        Ok(true)
    }
    // ---------------------------------------------------------------- threads
    // Thread 0 only spawns and joins. A thread may be preempted (at most preempt_bound times on a
    // path) before every access to shared memory that can order threads: compare-exchange,
    // exchange, atomic loads and stores. Counters (fetch_add on reference counts) are not points.
    fn runnable(&mut self) -> X<Vec<u32>> {
        let mut v = vec![];
        for i in 1..self.st.threads.len() {
            if i as u32 == self.st.cur {
                continue;
            }
            let b = match &self.st.threads[i] {
                Some(t) if !t.done => t.blocked,
                _ => continue,
            };
            if let Some((a, w)) = b {
                if self.st.mem.read_c(a, 4).ok().flatten() == Some(w as u64) {
                    continue;
                }
            }
            v.push(i as u32);
        }
        Ok(v)
    }
    pub fn switch_to(&mut self, tid: u32) {
        let cur = self.st.cur as usize;
        let th = Rc::make_mut(&mut self.st.threads);
        let t = th[tid as usize].take().unwrap();
        let old = Thread { frames: std::mem::replace(&mut self.st.frames, t.frames), sp: self.st.sp, done: false, token: self.st.sched_token, blocked: self.st.blocked.take() };
        th[cur] = Some(old);
        self.st.sp = t.sp;
        self.st.sched_token = t.token;
        self.st.blocked = None;
        self.st.cur = tid;
    }
    /// a choice of the scheduler: a symbolic variable
    fn choose_sw(&mut self) -> X<bool> {
        let v = match self.st.swvar {
            Some(v) => v,
            None => {
                let v = self.new_var("sw".to_string());
                let mut m: Mask = [0; 4];
                m[0] = 3;
                self.add_dom(v, &m);
                self.st.swvar = Some(v);
                v
            }
        };
        let e = self.x.var(v);
        let one = self.x.konst(1, 8);
        let c = self.x.eq(e, one);
        let r = self.decide(c)?;
        self.st.swvar = None;
        Ok(r)
    }
    fn is_point(&self, ins: &Inst) -> bool {
        let p = match ins {
            Inst::CmpXchg(_, p, _, _) | Inst::Load(_, p, true) | Inst::Store(_, _, p, true) => p,
            Inst::Rmw(op, _, p, _) => {
                if matches!(op, RmwOp::Add | RmwOp::Sub) {
                    return false;
                }
                p
            }
            _ => return false,
        };
        match self.val(p) {
            Val::C(a) => !self.m.quiet.iter().any(|(l, h)| a >= *l && a < *h),
            _ => true,
        }
    }
    /// before an instruction: true when another thread goes on instead
    fn sched_step(&mut self, ins: &Inst) -> X<bool> {
        if self.st.cur == 0 || !self.is_point(ins) {
            return Ok(false);
        }
        if self.st.sched_token {
            self.st.sched_token = false;
            self.in_point = true;
            return Ok(false);
        }
        if self.st.preempts >= self.lim.preempt_bound && self.st.swvar.is_none() {
            return Ok(false);
        }
        let o = match self.runnable()?.first() {
            Some(o) => *o,
            None => return Ok(false),
        };
        self.stats.sched_points += 1;
        let sw = self.choose_sw()?;
        self.st.sched_token = true;
        if sw {
            self.st.preempts += 1;
            self.switch_to(o);
        }
        Ok(true)
    }
    /// sched_yield: the next thread goes on, if there is one
    pub fn thread_yield(&mut self) -> X<()> {
        if self.st.cur != 0 {
            if let Some(o) = self.next_thread()? {
                self.switch_to(o);
            }
        }
        Ok(())
    }
    fn next_thread(&mut self) -> X<Option<u32>> {
        let r = self.runnable()?;
        let cur = self.st.cur;
        Ok(r.iter().find(|t| **t > cur).or(r.first()).copied())
    }
    /// futex wait: the word still has the value
    pub fn thread_wait(&mut self, a: u64, w: u32) -> X<()> {
        self.st.blocked = Some((a, w));
        match self.next_thread()? {
            Some(o) => self.switch_to(o),
            None => return Err(End::Assert(format!("deadlock at {}", self.stack_names()))),
        }
        Ok(())
    }
    pub fn spawn(&mut self, fid: u32, arg: Val) -> X<()> {
        let tid = self.st.threads.len() as u64;
        if self.st.cur != 0 || tid > 7 {
            return self.unsupported("spawn");
        }
        for (a, b) in &self.m.image {
            if *a >= TLS_BASE && *a < STACK_BASE {
                let r = self.st.mem.write_bytes(*a + (tid << 20), b);
                self.merr(r)?;
            }
        }
        let sp = STACK_BASE + 0x1000 + (tid << 26);
        let (frames, osp) = (std::mem::take(&mut self.st.frames), self.st.sp);
        self.st.sp = sp;
        let r = self.push_call(fid, vec![arg], u32::MAX, None);
        let frames = std::mem::replace(&mut self.st.frames, frames);
        self.st.sp = osp;
        r?;
        Rc::make_mut(&mut self.st.threads).push(Some(Thread { frames, sp, done: false, token: false, blocked: None }));
        Ok(())
    }
    /// true when all threads have ended; otherwise one of them goes on
    pub fn join(&mut self) -> X<bool> {
        let r = self.runnable()?;
        if r.is_empty() {
            if self.st.threads.iter().flatten().any(|t| !t.done) {
                return Err(End::Assert("deadlock".into()));
            }
            return Ok(true);
        }
        let mut o = r[0];
        if r.len() > 1 && self.choose_sw()? {
            o = r[1];
        }
        self.switch_to(o);
        Ok(false)
    }
    fn thread_end(&mut self) -> X<bool> {
        let cur = self.st.cur as usize;
        if cur == 0 {
            return Ok(false);
        }
        let next = self.next_thread()?;
        if next.is_none() && (1..self.st.threads.len()).any(|i| i != cur && self.st.threads[i].as_ref().map_or(false, |t| !t.done)) {
            return Err(End::Assert("deadlock".into()));
        }
        self.switch_to(next.unwrap_or(0));
        if let Some(t) = &mut Rc::make_mut(&mut self.st.threads)[cur] {
            t.done = true;
            t.blocked = None;
        }
        Ok(true)
    }
}

pub fn demangle(n: &str) -> String {
    // rough: keep the identifiers of a v0 or legacy mangled name
    let b = n.as_bytes();
    if !(n.starts_with("_R") || n.starts_with("_ZN")) {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && (b[i] != b'0') {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() && k < 80 && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'$' || *c == b'.') {
                let id = String::from_utf8_lossy(&b[j..j + k]).into_owned();
                out.push(id);
                i = j + k;
                continue;
            }
        }
        if b[i] == b's' {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    let n = out.len();
    if n > 5 {
        out[n - 5..].join("::")
    } else {
        out.join("::")
    }
}
