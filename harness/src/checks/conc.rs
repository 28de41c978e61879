//! C30: two calls at the same time
use super::hist::*;
use super::util::*;
use crate::sym;
use nodejs_resolver::*;
use std::sync::Arc;

pub const TABLE: &[(&str, extern "C" fn())] = &[("check_C30_pairs", check_C30_pairs)];

struct Job {
    r: *const Resolver,
    op: usize,
    ans: Option<Ans>,
}
extern "C" fn job(p: usize) {
    let j = unsafe { &mut *(p as *mut Job) };
    j.ans = Some(run(unsafe { &*j.r }, OPS[j.op].0, OPS[j.op].1));
}
/// C30: two calls on one resolver, or on two that share a cache
#[no_mangle]
pub extern "C" fn check_C30_pairs() {
    world();
    let n = sym::param("ops", 6) as usize;
    let list = [1, 3, 6, 8, 7, 12, 13, 15, 0, 2, 4, 5, 10, 11, 14, 16, 17, 9];
    let pick = |k: &str| list[sym::choose(k, n)];
    let (a, b) = (pick("op"), pick("op"));
    let second = [0, 4][sym::choose("second", sym::param("resolvers", 2) as usize)];
    let want = [run(&variant(0, None), OPS[a].0, OPS[a].1), run(&variant(second, None), OPS[b].0, OPS[b].1)];
    note_ans("a", &want[0]);
    note_ans("b", &want[1]);
    let rounds = if sym::is_native() { sym::param("rounds", 1500) } else { 1 };
    for _ in 0..rounds {
        let cache = Arc::new(ResolverCache::default());
        let r0 = variant(0, Some(cache.clone()));
        let r1 = variant(second, Some(cache));
        let mut ja = Job { r: &r0, op: a, ans: None };
        let mut jb = Job { r: if second == 0 { &r0 } else { &r1 }, op: b, ans: None };
        sym::spawn(job, &mut ja as *mut Job as usize);
        sym::spawn(job, &mut jb as *mut Job as usize);
        sym::join();
        sym::check(ja.ans.as_ref() == Some(&want[0]), "a concurrent call changed the answer of the first");
        sym::check(jb.ans.as_ref() == Some(&want[1]), "a concurrent call changed the answer of the second");
    }
}
