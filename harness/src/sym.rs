//! The symbolic interface. Under the executor the `__sym_*` functions are interpreted; in the
//! native executable they read a replay file and check the recorded run against the real code.
use std::fmt::Write as _;

extern "C" {
    fn abort() -> !;
}

mod native {
    use super::*;
    pub struct Rep {
        pub vars: Vec<(String, u8)>,
        pub next: usize,
        pub params: Vec<(String, i64)>,
        pub scratch: String,
    }
    pub static mut REP: Option<Rep> = None;
    #[allow(static_mut_refs)]
    pub fn rep() -> &'static mut Rep {
        unsafe { REP.as_mut().unwrap() }
    }
    pub fn name(p: *const u8, n: usize) -> &'static str {
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
    }
    pub fn next(p: *const u8, n: usize) -> u8 {
        let r = rep();
        let nm = name(p, n);
        if r.next >= r.vars.len() {
            // variables past the recorded run (the symbolic run ended earlier)
            println!("EXHAUSTED {}", nm);
            std::process::exit(5);
        }
        let (k, v) = r.vars[r.next].clone();
        r.next += 1;
        if k != nm.replace(' ', "_") {
            println!("DESYNC {} {}", k, nm);
            std::process::exit(6);
        }
        v
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_u8(p: *const u8, n: usize) -> u8 {
    native::next(p, n)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_range(p: *const u8, n: usize, _lo: u8, _hi: u8) -> u8 {
    native::next(p, n)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_in(p: *const u8, n: usize, _s: *const u8, _k: usize) -> u8 {
    native::next(p, n)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_assume(c: u8) {
    if c == 0 {
        println!("ASSUME");
        std::process::exit(4);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_assert(c: u8, p: *const u8, n: usize) {
    if c == 0 {
        println!("ASSERT {}", native::name(p, n));
        std::process::exit(3);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_cover(_p: *const u8, _n: usize) {}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_note(p: *const u8, n: usize, q: *const u8, m: usize) {
    let v = unsafe { std::slice::from_raw_parts(q, m) };
    let mut s = String::new();
    for b in v {
        let _ = write!(s, "{:02x}", b);
    }
    println!("NOTE {} {}", native::name(p, n), s);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_native() -> u8 {
    1
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_param(p: *const u8, n: usize, d: i64) -> i64 {
    let nm = native::name(p, n);
    native::rep().params.iter().find(|x| x.0 == nm).map_or(d, |x| x.1)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_hash(_on: u8) {}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_lap() {}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_debug(_p: *const u8, _n: usize) {}

static mut JOBS: Vec<std::thread::JoinHandle<()>> = Vec::new();
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_spawn(f: extern "C" fn(usize), a: usize) {
    #[allow(static_mut_refs)]
    unsafe {
        JOBS.push(std::thread::spawn(move || f(a)))
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_join() {
    #[allow(static_mut_refs)]
    for j in unsafe { JOBS.drain(..) } {
        j.join().unwrap();
    }
}

pub fn native_init(file: &str, scratch: &str) {
    let s = std::fs::read_to_string(file).unwrap();
    let mut r = native::Rep { vars: vec![], next: 0, params: vec![], scratch: scratch.into() };
    for l in s.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "var" => r.vars.push((w[1].into(), w[2].parse().unwrap())),
            "param" => r.params.push((w[1].into(), w[2].parse().unwrap())),
            _ => {}
        }
    }
    unsafe {
        native::REP = Some(r);
    }
}
pub fn native_scratch() -> &'static str {
    &native::rep().scratch
}

// ------------------------------------------------------------------ the API the checks use
pub fn is_native() -> bool {
    __sym_native() != 0
}
pub fn u8v(name: &str) -> u8 {
    __sym_u8(name.as_ptr(), name.len())
}
pub fn range(name: &str, lo: u8, hi: u8) -> u8 {
    __sym_range(name.as_ptr(), name.len(), lo, hi)
}
pub fn one_of(name: &str, set: &[u8]) -> u8 {
    __sym_in(name.as_ptr(), name.len(), set.as_ptr(), set.len())
}
pub fn flag(name: &str) -> bool {
    range(name, 0, 1) != 0
}
pub fn assume(c: bool) {
    __sym_assume(c as u8)
}
pub fn check(c: bool, msg: &str) {
    __sym_assert(c as u8, msg.as_ptr(), msg.len())
}
pub fn cover(name: &str) {
    __sym_cover(name.as_ptr(), name.len())
}
pub fn note(k: &str, v: &[u8]) {
    __sym_note(k.as_ptr(), k.len(), v.as_ptr(), v.len())
}
pub fn param(k: &str, d: i64) -> i64 {
    __sym_param(k.as_ptr(), k.len(), d)
}
/// case split: the value becomes concrete on each path
pub fn fix(v: usize) -> usize {
    __sym_concrete(v as u64) as usize
}
/// from now on the iteration order of hash tables is arbitrary
pub fn any_hash(on: bool) {
    __sym_hash(on as u8)
}
/// start a new step budget
pub fn lap() {
    __sym_lap()
}
/// run f(a) on another thread
pub fn spawn(f: extern "C" fn(usize), a: usize) {
    __sym_spawn(f, a)
}
/// wait for all threads
pub fn join() {
    __sym_join()
}
pub fn debug(s: &str) {
    __sym_debug(s.as_ptr(), s.len())
}
pub fn die() -> ! {
    unsafe { abort() }
}

fn vname(name: &str, i: usize) -> String {
    let mut s = String::from(name);
    s.push_str("[");
    let d = i as u8;
    if d >= 10 {
        s.push((b'0' + d / 10) as char);
    }
    s.push((b'0' + d % 10) as char);
    s.push_str("]");
    s
}
/// a string of length lo..=hi (case split on the length) over the given ASCII alphabet
pub fn string(name: &str, lo: usize, hi: usize, alphabet: &[u8]) -> String {
    let n = if lo == hi { lo } else { fix(range(name, lo as u8, hi as u8) as usize) };
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(one_of(&vname(name, i), alphabet));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// index into a list of alternatives (case split)
pub fn choose(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    fix(range(name, 0, (n - 1) as u8) as usize)
}
