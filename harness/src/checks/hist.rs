//! Histories: C18, C19, C24, C25, C33
use super::refr::*;
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;
use std::path::Path;
use std::sync::Arc;

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("check_C18_pairs", check_C18_pairs),
    ("check_C18_trees", check_C18_trees),
    ("check_C18_byte", check_C18_byte),
    ("check_C19_content", check_C19_content),
    ("check_C19_time", check_C19_time),
    ("check_C24_once", check_C24_once), ("check_C24_file", check_C24_file),
    ("check_C25_nearest", check_C25_nearest),
    ("check_C25_used", check_C25_used),
    ("check_C25_value", check_C25_value),
    ("check_C33_names", check_C33_names),
    ("check_C33_any", check_C33_any),
];
const AF: [u8; 2] = [vfs::ABSENT, vfs::FILE];

/// the answer of one operation, comparable
#[derive(PartialEq)]
pub(super) enum Ans {
    Out(Out),
    Side(String),
}
fn side(r: &Resolver, p: &str) -> String {
    match r.load_side_effects(Path::new(p)) {
        Err(e) => cat(&["E ", &e]),
        Ok(None) => "none".to_string(),
        Ok(Some((f, v))) => {
            let f = unsafe { std::str::from_utf8_unchecked(std::os::unix::ffi::OsStrExt::as_bytes(f.as_os_str())) };
            let mut s = cat(&[f, " "]);
            match v {
                None => s.push_str("-"),
                Some(SideEffects::Bool(true)) => s.push_str("true"),
                Some(SideEffects::Bool(false)) => s.push_str("false"),
                Some(SideEffects::Array(a)) => {
                    for x in a {
                        s.push('[');
                        s.push_str(&x);
                        s.push(']');
                    }
                    s.push('.');
                }
            }
            s
        }
    }
}
pub(super) fn note_ans(k: &str, a: &Ans) {
    match a {
        Ans::Out(o) => note_out(k, o),
        Ans::Side(s) => note_s(k, s),
    }
}
pub(super) fn run(r: &Resolver, dir: &str, req: &str) -> Ans {
    if req == "SIDE" {
        Ans::Side(side(r, &vfs::abs(dir)))
    } else {
        Ans::Out(resolve(r, &vfs::abs(dir), req))
    }
}

pub(super) const OPS: [(&str, &str); 18] = [
    ("w", "./f"),
    ("w", "p"),
    ("w", "p/f"),
    ("w", "q"),
    ("w/sub", "../f"),
    ("w/sub", "#x"),
    ("w/sub/deep", "w/s"),
    ("w/bad", "./i"),
    ("", "p"),
    ("", "q"),
    ("l", "./f"),
    ("w", "#q"),
    ("i", "#x"),
    ("w/gone/deep", "p"),
    ("", "none/x"),
    ("w", "SIDE"),
    ("w/sub/h.js", "SIDE"),
    ("node_modules/q/lib", "SIDE"),
];
pub(super) fn world() {
    let e = "{\".\":{\"a\":\"./f.js\",\"default\":\"./g.js\"},\"./*\":\"./*.js\"}";
    vfs::maybe(
        "w/package.json",
        &AF,
        &cat(&["{\"name\":\"w\",\"browser\":{\"./f.js\":\"./g.js\",\"q\":false},\"imports\":{\"#x\":{\"a\":\"./f.js\",\"default\":\"./g.js\"},\"#q\":\"q\"},\"exports\":{\"./s\":\"./f.js\"},\"sideEffects\":false}"]),
    );
    vfs::file("w/other.json", "{\"name\":\"o\",\"browser\":{\"./f.js\":false},\"imports\":{\"#x\":\"./sub/h.js\"},\"sideEffects\":[\"h\"]}");
    for f in ["w/f.js", "w/g.js", "w/sub/h.js", "w/sub/deep/k.js", "w/bad/i.js", "i/f.js", "i/g.js", "w/index.js"] {
        vfs::file(f, "");
    }
    vfs::file("w/bad/package.json", "{\"name\":");
    vfs::file("node_modules/p/package.json", &cat(&["{\"main\":\"m.js\",\"exports\":", e, "}"]));
    vfs::file("node_modules/p/other.json", "{\"main\":\"g.js\"}");
    vfs::maybe("w/node_modules/p/package.json", &AF, &cat(&["{\"exports\":", e, "}"]));
    for d in ["node_modules/p", "w/node_modules/p"] {
        for f in ["f.js", "g.js", "m.js"] {
            vfs::file(&join(d, f), "");
        }
    }
    vfs::file("node_modules/q/package.json", "{\"main\":\"./lib\",\"browser\":{\"./lib/index.js\":\"./g.js\"}}");
    vfs::file("node_modules/q/other.json", "{\"exports\":\"./g.js\",\"name\":\"q\"}");
    vfs::file("node_modules/q/lib/index.js", "");
    vfs::file("node_modules/q/g.js", "");
    // the same text as exports (condition "#x") and as imports
    vfs::file("i/package.json", "{\"imports\":{\"#x\":{\"a\":\"./f.js\",\"default\":\"./g.js\"}},\"exports\":{\"#x\":{\"a\":\"./f.js\",\"default\":\"./g.js\"}}}");
    vfs::link("l", "w");
    vfs::commit();
}
pub(super) fn variant(i: usize, cache: Option<Arc<ResolverCache>>) -> Resolver {
    let mut o = ResolverOptions { external_cache: cache, ..opts(&sv(&[".js"])) };
    match i {
        0 => {}
        1 => o.browser_field = true,
        2 => o.description_file = Some("other.json".into()),
        3 => o.description_file = None,
        4 => o.condition_names = ["a".to_string(), "#x".to_string()].into_iter().collect(),
        5 => {
            o.symlinks = false;
            o.extensions = sv(&[".json", ".js"]);
            o.main_fields = sv(&["zz"]);
            o.browser_field = true;
        }
        _ => {
            o.alias = vec![("p".into(), AliasMap::Target("q".into())), ("#".into(), AliasMap::Ignored)];
            o.prefer_relative = true;
            o.description_file = Some("other.json".into());
            o.browser_field = true;
        }
    }
    Resolver::new(o)
}
/// C18: earlier requests, with the same or another resolver over the same cache
#[no_mangle]
pub extern "C" fn check_C18_pairs() {
    world();
    let prior = sym::param("prior", 1) as usize;
    let cache = Arc::new(ResolverCache::default());
    let mut rs: Vec<Option<Resolver>> = vec![None, None, None, None, None, None, None];
    for k in 0..=prior {
        let early = k + 1 < prior;
        let v = sym::choose("resolver", if early { 3 } else { rs.len() });
        // side effects need a description file
        let op = if early { [0, 2, 5, 7, 8, 15][sym::choose("op", 6)] } else { sym::choose("op", OPS.len()) };
        sym::assume(v != 3 || OPS[op].1 != "SIDE");
        if rs[v].is_none() {
            rs[v] = Some(variant(v, Some(cache.clone())));
        }
        let a = run(rs[v].as_ref().unwrap(), OPS[op].0, OPS[op].1);
        note_ans("answer", &a);
        if k == prior {
            let fresh = run(&variant(v, None), OPS[op].0, OPS[op].1);
            note_ans("fresh", &fresh);
            sym::check(a == fresh, "earlier resolutions changed the answer");
        }
    }
}
/// C18: packages whose descriptions have the same or nearly the same text
#[no_mangle]
pub extern "C" fn check_C18_trees() {
    let bodies = [
        "{\"./x\":\"./a.js\",\"./*\":\"./b.js\"}",
        "{\"./x\":\"./b.js\",\"./*\":\"./a.js\"}",
        "{\"./*\":\"./b.js\",\"./x\":\"./a.js\"}",
        "{\"a\":\"./a.js\",\"default\":\"./b.js\"}",
        "{\"default\":\"./a.js\"}",
        "\"./a.js\"",
        "[\"./b.js\",\"./a.js\"]",
        "{\"#x\":\"./a.js\"}",
        "{\"#x\":{\"a\":\"./a.js\",\"default\":\"./b.js\"}}",
        "{\"#x\":{\"default\":\"./b.js\"}}",
        "1",
    ];
    let mut kind = [0usize; 2];
    for (i, p) in ["p", "q"].iter().enumerate() {
        let b = sym::choose("body", sym::param("bodies", 9) as usize);
        kind[i] = sym::choose("field", sym::param("fields", 2) as usize);
        let doc = match kind[i] {
            0 => cat(&["{\"exports\":", bodies[b], "}"]),
            1 => cat(&["{\"imports\":", bodies[b], "}"]),
            _ => cat(&["{\"exports\":", bodies[b], ",\"imports\":", bodies[b], "}"]),
        };
        let at = cat(&["node_modules/", p]);
        vfs::file(&join(&at, "package.json"), &doc);
        vfs::file(&join(&at, "a.js"), "");
        vfs::file(&join(&at, "b.js"), "");
        vfs::file(&join(&at, "index.js"), "");
    }
    vfs::commit();
    let cond = |i: usize| if i == 0 { vec![] } else { sv(&["a", "#x"]) };
    let cache = Arc::new(ResolverCache::default());
    let mk = |c: usize, cache: Option<Arc<ResolverCache>>| {
        Resolver::new(ResolverOptions { condition_names: cond(c).into_iter().collect(), external_cache: cache, ..opts(&sv(&[".js"])) })
    };
    let reqs = |p: usize, k: usize| match k {
        0 => ("".to_string(), ["p", "q"][p].to_string()),
        1 => ("".to_string(), ["p/x", "q/x"][p].to_string()),
        _ => (["node_modules/p", "node_modules/q"][p].to_string(), "#x".to_string()),
    };
    let (c1, k1) = (sym::choose("cond", 2), sym::choose("req", 3));
    let (c2, k2) = (sym::choose("cond", 2), sym::choose("req", 3));
    let (d1, r1) = reqs(0, k1);
    let (d2, r2) = reqs(1, k2);
    let a = run(&mk(c1, Some(cache.clone())), &d1, &r1);
    note_ans("first", &a);
    let b = run(&mk(c2, Some(cache.clone())), &d2, &r2);
    note_ans("second", &b);
    let fresh = run(&mk(c2, None), &d2, &r2);
    note_ans("fresh", &fresh);
    sym::check(b == fresh, "an earlier resolution of another package changed the answer");
}

/// C18: two descriptions that differ in one byte
#[no_mangle]
pub extern "C" fn check_C18_byte() {
    let form = sym::choose("form", 5);
    for p in ["p", "q"] {
        let c = sym::range("c", 0x21, 0x7e);
        sym::assume(c != b'"' && c != b'\\' && c != b'/' && c != b'.');
        let c = unsafe { String::from_utf8_unchecked(vec![c]) };
        let at = cat(&["node_modules/", p]);
        let doc = match form {
            0 => {
                vfs::file(&join(&at, &cat(&[&c, ".js"])), "");
                cat(&["{\"exports\":\"./", &c, ".js\"}"])
            }
            1 => cat(&["{\"exports\":{\"", &c, "\":\"./a1.js\",\"default\":\"./b1.js\"}}"]),
            2 => cat(&["{\"exports\":{\"./", &c, "\":\"./a1.js\",\"./x\":\"./b1.js\"}}"]),
            3 => cat(&["{\"imports\":{\"#", &c, "\":\"./a1.js\",\"#xx\":\"./b1.js\"}}"]),
            _ => cat(&["{\"imports\":{\"#xx\":{\"", &c, "\":\"./a1.js\",\"default\":\"./b1.js\"}}}"]),
        };
        vfs::file(&join(&at, "package.json"), &doc);
        vfs::file(&join(&at, "a1.js"), "");
        vfs::file(&join(&at, "b1.js"), "");
    }
    vfs::commit();
    let cache = Arc::new(ResolverCache::default());
    let mk = |cache: Option<Arc<ResolverCache>>| Resolver::new(ResolverOptions { condition_names: sv(&["x"]).into_iter().collect(), external_cache: cache, ..opts(&sv(&[".js"])) });
    let (d, t) = match form {
        0 | 1 => ("", ["p", "q"]),
        2 => ("", ["p/x", "q/x"]),
        3 => ("x", ["#x", "#x"]),
        _ => ("x", ["#xx", "#xx"]),
    };
    let dir = |p: &str| if d.is_empty() { String::new() } else { cat(&["node_modules/", p]) };
    let a = run(&mk(Some(cache.clone())), &dir("p"), t[0]);
    note_ans("first", &a);
    let b = run(&mk(Some(cache.clone())), &dir("q"), t[1]);
    note_ans("second", &b);
    let fresh = run(&mk(None), &dir("q"), t[1]);
    sym::check(b == fresh, "an earlier resolution of another package changed the answer");
}

// ------------------------------------------------------------------ C19
const DOCS: [&str; 11] = [
    "{}",
    "{\"main\":\"a.js\"}",
    "{\"main\":\"b.js\"}",
    "{\"exports\":\"./a.js\"}",
    "{\"exports\":{\".\":\"./b.js\",\"./x\":\"./a.js\"}}",
    "{\"exports\":",
    "{\"browser\":{\"./index.js\":\"./a.js\",\"./b.js\":false}}",
    "{\"imports\":{\"#x\":\"./a.js\"},\"sideEffects\":false}",
    "{\"imports\":{\"#x\":\"./b.js\"},\"sideEffects\":[\"b\"]}",
    "{\"sideEffects\":1}",
    "{\"name\":\"p\",\"exports\":{\"./x\":\"./b.js\"}}",
];
fn c19_ops(at: &str) -> [(String, String); 6] {
    let s = |a: &str, b: &str| (a.to_string(), b.to_string());
    [s("", "p"), s("", "p/x"), s(at, "#x"), s(at, "./b"), s(&join(at, "sub"), "SIDE"), s(&join(at, "sub"), "p/x")]
}
fn c19_files(at: &str) {
    for f in ["a.js", "b.js", "index.js", "x.js", "sub/k.js"] {
        vfs::file(&join(at, f), "");
    }
}
/// C19: every old content, every new content, one request before and one after
#[no_mangle]
pub extern "C" fn check_C19_content() {
    let at = "node_modules/p";
    let old = sym::choose("old", DOCS.len());
    let new = sym::choose("new", DOCS.len());
    sym::assume(old != new);
    // under its usual name or one of the user's choice
    let custom = sym::flag("custom");
    let i = vfs::file(&join(at, if custom { "about.json" } else { "package.json" }), DOCS[old]);
    c19_files(at);
    vfs::commit();
    let up = custom || sym::flag("forward");
    let ops = c19_ops(at);
    let mk = || Resolver::new(ResolverOptions { browser_field: true, description_file: Some(if custom { "about.json" } else { "package.json" }.to_string()), ..opts(&sv(&[".js"])) });
    let r = mk();
    let first = sym::choose("first", ops.len());
    let a = run(&r, &ops[first].0, &ops[first].1);
    note_ans("before", &a);
    vfs::update(i, vfs::FILE, DOCS[new].as_bytes(), if up { 1001 } else { 999 });
    let second = sym::choose("second", ops.len());
    let b = run(&r, &ops[second].0, &ops[second].1);
    note_ans("after", &b);
    let fresh = run(&mk(), &ops[second].0, &ops[second].1);
    note_ans("fresh", &fresh);
    sym::check(b == fresh, "the modified description file was not observed");
    let c = run(&r, &ops[second].0, &ops[second].1);
    sym::check(c == fresh, "the modified description file was forgotten again");
}
/// C19: symbolic modification times, two modifications in a row
#[no_mangle]
pub extern "C" fn check_C19_time() {
    let at = ["node_modules/p", "w"][sym::choose("at", 2)];
    let i = vfs::file(&join(at, "package.json"), "{\"main\":\"a.js\",\"imports\":{\"#x\":\"./a.js\"},\"sideEffects\":true}");
    for f in ["a.js", "b.js", "x.js", "sub/k.js"] {
        vfs::file(&join(at, f), "");
    }
    let t0 = sym::u8v("t0") as i64;
    let n0 = sym::u8v("n0") as u32;
    vfs::fs().nodes[i].mtime = 1000 + t0;
    vfs::fs().nodes[i].nsec = n0 * 3_906_250;
    vfs::commit();
    let mk = || Resolver::new(opts(&sv(&[".js"])));
    let ops = [("", if at == "w" { "./w" } else { "p" }), (at, "#x"), (&join(at, "sub")[..], "SIDE")];
    let r = mk();
    let k = sym::choose("op", ops.len());
    let a = run(&r, ops[k].0, ops[k].1);
    note_ans("first", &a);
    let docs = ["{\"main\":\"b.js\",\"imports\":{\"#x\":\"./b.js\"},\"sideEffects\":false}", "{\"main\":\"x.js\",\"imports\":{\"#x\":\"./x.js\"},\"sideEffects\":[]}"];
    let (mut t, mut n) = (t0, n0);
    for d in 0..sym::param("updates", 2) as usize {
        let t1 = sym::u8v("t") as i64;
        let n1 = sym::u8v("n") as u32;
        // at least one second, in either direction
        let (a, b) = (t * 256 + n as i64, t1 * 256 + n1 as i64);
        sym::assume(b >= a + 256 || a >= b + 256);
        vfs::fs().nodes[i].nsec = n1 * 3_906_250;
        vfs::update(i, vfs::FILE, docs[d % 2].as_bytes(), 1000 + t1);
        t = t1;
        n = n1;
        let b = run(&r, ops[k].0, ops[k].1);
        note_ans("after", &b);
        let fresh = run(&mk(), ops[k].0, ops[k].1);
        sym::check(b == fresh, "the modified description file was not observed");
    }
}

// ------------------------------------------------------------------ C24
/// C24: one failing call (or all calls from one on), then no failures
#[no_mangle]
pub extern "C" fn check_C24_once() {
    vfs::file("w/package.json", "{\"name\":\"w\",\"browser\":{\"./f.js\":\"./g.js\",\"z\":\"./f\"},\"imports\":{\"#x\":\"./g.js\",\"#p\":\"p\"},\"sideEffects\":false}");
    for f in ["w/f.js", "w/g.js", "w/d/index.js", "w/sub/k.js", "w/rel.js"] {
        vfs::file(f, "");
    }
    vfs::file("package.json", "{\"name\":\"top\",\"browser\":{\"p\":\"./w/g.js\"},\"imports\":{\"#x\":\"./w/f.js\"},\"sideEffects\":true}");
    vfs::file("node_modules/p/package.json", "{\"main\":\"./m\",\"exports\":{\".\":[\"./m.js\",\"./n.js\"],\"./x\":\"./n.js\"}}");
    vfs::file("node_modules/p/m.js", "");
    vfs::file("node_modules/p/n.js", "");
    vfs::file("w/node_modules/q/package.json", "{\"main\":\"./lib\"}");
    vfs::file("w/node_modules/q/lib/index.js", "");
    vfs::file("w/node_modules/q/index.js", "");
    vfs::link("w/l", "f.js");
    vfs::file("w/tsconfig.json", "{\"extends\":\"./base\",\"compilerOptions\":{\"baseUrl\":\".\"}}");
    vfs::file("w/base.json", "{\"compilerOptions\":{\"paths\":{\"ts\":[\"./gone\",\"./f\"]}}}");
    vfs::commit();
    let ops: [(&str, &str); 11] = [
        ("w", "./f"),
        ("w/sub", "#x"),
        ("w", "p"),
        ("w/sub", "q"),
        ("w", "./d"),
        ("w", "./l"),
        ("w", "z"),
        ("w", "p/x"),
        ("w/sub", "SIDE"),
        ("w", "rel"),
        ("w", "ts"),
    ];
    let mode = sym::choose("mode", 3);
    let mk = || {
        let mut o = opts(&sv(&[".js", ".json"]));
        if mode == 1 {
            o.browser_field = true;
            o.prefer_relative = true;
        }
        if mode == 2 {
            o.tsconfig = Some(vfs::abs("w/tsconfig.json").into());
        }
        Resolver::new(o)
    };
    let r = mk();
    let warm = sym::flag("warm");
    let k1 = sym::choose("first", ops.len());
    let k2 = if sym::param("wide", 0) != 0 { sym::choose("second", ops.len()) } else { [k1, 1, 2, 8][sym::choose("second", 4)] };
    if warm {
        let a = run(&r, ops[k2].0, ops[k2].1);
        note_ans("warm", &a);
    }
    let at = sym::fix(sym::range("at", 0, sym::param("calls", 60) as u8) as usize);
    let err = [5u8, 13][sym::choose("err", sym::param("errs", 1) as usize)];
    let all = sym::flag("all");
    vfs::arm(at as u32, err, all);
    let a = run(&r, ops[k1].0, ops[k1].1);
    let n = vfs::disarm();
    // the call exists
    sym::assume(at < n as usize);
    note_ans("failing", &a);
    if let Ans::Out(Out::File { path, .. }) = &a {
        sym::check(vfs::is_file(path), "reported a file that does not exist");
    }
    let b = run(&r, ops[k2].0, ops[k2].1);
    note_ans("later", &b);
    let fresh = run(&mk(), ops[k2].0, ops[k2].1);
    note_ans("fresh", &fresh);
    sym::check(b == fresh, "a failing call corrupted later answers");
}

/// C24: one file that exists but cannot be examined, opened or read, for as long as it lasts
#[no_mangle]
pub extern "C" fn check_C24_file() {
    let d0 = vfs::file("w/package.json", "{\"name\":\"w\",\"browser\":{\"./f.js\":\"./g.js\",\"z\":\"./f\"},\"imports\":{\"#x\":\"./g.js\",\"#p\":\"p\"},\"sideEffects\":false}");
    for f in ["w/f.js", "w/g.js", "w/d/index.js", "w/sub/k.js", "w/rel.js"] {
        vfs::file(f, "");
    }
    let d1 = vfs::file("package.json", "{\"name\":\"top\",\"browser\":{\"p\":\"./w/g.js\"},\"imports\":{\"#x\":\"./w/f.js\"},\"sideEffects\":true}");
    let d2 = vfs::file("node_modules/p/package.json", "{\"main\":\"./m\",\"exports\":{\".\":[\"./m.js\",\"./n.js\"],\"./x\":\"./n.js\"}}");
    vfs::file("node_modules/p/m.js", "");
    vfs::file("node_modules/p/n.js", "");
    let d3 = vfs::file("w/node_modules/q/package.json", "{\"main\":\"./lib\"}");
    vfs::file("w/node_modules/q/lib/index.js", "");
    vfs::file("w/node_modules/q/index.js", "");
    vfs::link("w/l", "f.js");
    let d4 = vfs::file("w/tsconfig.json", "{\"extends\":\"./base\",\"compilerOptions\":{\"baseUrl\":\".\"}}");
    let d5 = vfs::file("w/base.json", "{\"compilerOptions\":{\"paths\":{\"ts\":[\"./gone\",\"./f\"]}}}");
    vfs::commit();
    let ops: [(&str, &str); 11] = [
        ("w", "./f"),
        ("w/sub", "#x"),
        ("w", "p"),
        ("w/sub", "q"),
        ("w", "./d"),
        ("w", "./l"),
        ("w", "z"),
        ("w", "p/x"),
        ("w/sub", "SIDE"),
        ("w", "rel"),
        ("w", "ts"),
    ];
    let mode = sym::choose("mode", 3);
    let mk = || {
        let mut o = opts(&sv(&[".js", ".json"]));
        if mode == 1 {
            o.browser_field = true;
            o.prefer_relative = true;
        }
        if mode == 2 {
            o.tsconfig = Some(vfs::abs("w/tsconfig.json").into());
        }
        Resolver::new(o)
    };
    let which = sym::choose("which", 6);
    // the settings are only read in one mode
    sym::assume(which < 4 || mode == 2);
    let node = [d0, d1, d2, d3, d4, d5][which];
    let what = sym::choose("what", 3);
    let r = mk();
    let k1 = sym::choose("first", ops.len());
    let k2 = [k1, 1, 2, 8][sym::choose("second", 4)];
    if sym::flag("warm") {
        let a = run(&r, ops[k2].0, ops[k2].1);
        note_ans("warm", &a);
    }
    vfs::fail(node, what, [5u8, 13][sym::choose("err", sym::param("errs", 1) as usize)]);
    let a = run(&r, ops[k1].0, ops[k1].1);
    note_ans("failing", &a);
    let a = run(&r, ops[k2].0, ops[k2].1);
    note_ans("failing_too", &a);
    vfs::fail(node, what, 0);
    for k in [k2, k1] {
        let b = run(&r, ops[k].0, ops[k].1);
        note_ans("later", &b);
        let fresh = run(&mk(), ops[k].0, ops[k].1);
        sym::check(b == fresh, "a file that could not be read for a while corrupted later answers");
    }
}

// ------------------------------------------------------------------ C25
const SIDES: [(&str, &str); 9] = [
    ("", "-"),
    (",\"sideEffects\":true", "true"),
    (",\"sideEffects\":false", "false"),
    (",\"sideEffects\":[]", "."),
    (",\"sideEffects\":[\"*.css\",\"b\"]", "[*.css][b]."),
    (",\"sideEffects\":[\"\"]", "[]."),
    (",\"sideEffects\":[\"\\u00e9\"]", "[\u{e9}]."),
    (",\"sideEffects\":[\"b\",\"a\",\"b\"]", "[b][a][b]."),
    (",\"sideEffects\":[\"true\"],\"x\":{\"sideEffects\":false}", "[true]."),
];
/// C25: what load_side_effects reports, for two paths in a row
#[no_mangle]
pub extern "C" fn check_C25_nearest() {
    let dirs = ["", "w", "w/a", "w/a/b"];
    let mut val = [0usize; 4];
    let mut kind = [0u8; 4];
    for (i, d) in dirs.iter().enumerate() {
        // one level takes every value, the others one of their own
        val[i] = if i == 2 { sym::choose("value", SIDES.len()) } else { [4, 1, 0, 2][i] };
        let rel = if d.is_empty() { "package.json".to_string() } else { join(d, "package.json") };
        kind[i] = sym::one_of("kind", &[vfs::ABSENT, vfs::FILE, vfs::DIR]);
        let doc = cat(&["{\"name\":\"n\"", SIDES[val[i]].0, "}"]);
        if sym::param("linked", 2) > i as i64 && kind[i] == vfs::FILE && sym::flag("link") {
            let real = ["real0.json", "real1.json", "real2.json", "real3.json"][i];
            vfs::file(real, &doc);
            vfs::link(&rel, &cat(&[["", "../", "../../", "../../../"][i], real]));
        } else {
            vfs::add(&rel, kind[i], doc.as_bytes());
        }
    }
    vfs::file("w/a/b/f.js", "");
    vfs::file("w/a/f.js", "");
    vfs::dir("w/c/d");
    vfs::file("node_modules/package.json", "{\"sideEffects\":[\"no\"]}");
    vfs::commit();
    let paths: [(&str, usize); 10] = [("w/a/b", 3), ("w/a/b/f.js", 3), ("w/a/b/gone/x", 3), ("w/a", 2), ("w/a/f.js", 2), ("w/a/gone.js", 2), ("w", 1), ("w/c/d", 1), ("", 0), ("w/a/b/f.js/x", 3)];
    let r = Resolver::new(opts(&sv(&[".js"])));
    for _ in 0..sym::param("queries", 2) {
        let q = sym::choose("path", paths.len());
        let got = side(&r, &vfs::abs(paths[q].0));
        note_s("got", &got);
        let mut exp = "none".to_string();
        let mut l = paths[q].1 as i32;
        while l >= 0 {
            let rel = if l == 0 { "package.json".to_string() } else { join(dirs[l as usize], "package.json") };
            if vfs::is_file(&vfs::abs(&rel)) {
                exp = cat(&[&vfs::abs(&rel), " ", SIDES[val[l as usize]].1]);
                break;
            }
            l -= 1;
        }
        sym::check(got == exp, "not the nearest description file, or not its sideEffects");
    }
}
/// C25: the strings of a list, byte for byte
#[no_mangle]
pub extern "C" fn check_C25_value() {
    let mut js = String::from("{\"sideEffects\":[");
    let mut exp = cat(&[&vfs::abs("w/package.json"), " "]);
    let k = sym::choose("entries", 3);
    for i in 0..k {
        if i > 0 {
            js.push(',');
        }
        let n = if i == 0 { sym::param("n", 3) as usize } else { 1 };
        let n = sym::fix(sym::range("len", 0, n as u8) as usize);
        let mut v: Vec<u8> = vec![];
        for _ in 0..n {
            let c = sym::range("c", 0x20, 0x7f);
            sym::assume(c != b'"' && c != b'\\');
            v.push(c);
        }
        let s = unsafe { String::from_utf8_unchecked(v) };
        js = cat(&[&js, "\"", &s, "\""]);
        exp = cat(&[&exp, "[", &s, "]"]);
    }
    js.push_str("]}");
    exp.push('.');
    vfs::file("w/package.json", &js);
    vfs::file("w/a/f.js", "");
    vfs::commit();
    let r = Resolver::new(opts(&sv(&[".js"])));
    let got = side(&r, &vfs::abs("w/a/f.js"));
    sym::check(got == exp, "the sideEffects list is not reported as written");
}
/// C25: the description that is used in resolution
#[no_mangle]
pub extern "C" fn check_C25_used() {
    // w, w/a, w/a/b each with or without a description; each maps m to its own target
    let dirs = ["", "w", "w/a", "w/a/b"];
    let names = ["t0", "t1", "t2", "t3"];
    for (i, d) in dirs.iter().enumerate() {
        let doc = cat(&["{\"browser\":{\"m\":\"./", names[i], ".js\",\"./own.js\":\"./", names[i], ".js\"},\"imports\":{\"#m\":\"./", names[i], ".js\"}}"]);
        let rel = |f: &str| if d.is_empty() { f.to_string() } else { join(d, f) };
        vfs::maybe(&rel("package.json"), &[vfs::ABSENT, vfs::FILE, vfs::DIR], &doc);
        vfs::file(&rel(&cat(&[names[i], ".js"])), "");
        vfs::file(&rel("own.js"), "");
        vfs::file(&rel("x.js"), "");
    }
    vfs::file("node_modules/m/index.js", "");
    vfs::commit();
    let r = Resolver::new(ResolverOptions { browser_field: true, ..opts(&sv(&[".js"])) });
    for _ in 0..sym::param("queries", 2) {
        let l = sym::choose("from", 4);
        let at = vfs::abs(dirs[l]);
        // the nearest one
        let near = |mut l: i32| -> Option<usize> {
            while l >= 0 {
                let p = join(&vfs::abs(dirs[l as usize]), "package.json");
                if vfs::is_file(&p) {
                    return Some(l as usize);
                }
                l -= 1;
            }
            None
        };
        let k = sym::choose("req", 5);
        let t = |i: usize| join(&vfs::abs(dirs[i]), &cat(&[names[i], ".js"]));
        match k {
            0 => {
                let o = resolve(&r, &at, "m");
                note_out("m", &o);
                let exp = match near(l as i32) {
                    Some(i) => t(i),
                    None => vfs::abs("node_modules/m/index.js"),
                };
                sym::check(is_file_at(&o, &exp), "a module request is not mapped by the nearest description");
            }
            1 => {
                let o = resolve(&r, &at, "#m");
                note_out("#m", &o);
                match near(l as i32) {
                    Some(i) => sym::check(is_file_at(&o, &t(i)), "an internal request is not answered by the nearest description"),
                    None => sym::check(is_err(&o), "an internal request without a description"),
                }
            }
            2 => {
                // a file next to a description applies to it only
                let o = resolve(&r, &at, "./own");
                note_out("own", &o);
                let n = near(l as i32);
                let exp = if n == Some(l) { t(l) } else { join(&at, "own.js") };
                sym::check(is_file_at(&o, &exp), "a file request is not mapped by the nearest description");
            }
            3 => {
                // through the parent directory
                sym::assume(l > 0);
                let o = resolve(&r, &at, "../own.js");
                note_out("up", &o);
                let up = l - 1;
                let exp = if near(up as i32) == Some(up) { t(up) } else { join(&vfs::abs(dirs[up]), "own.js") };
                sym::check(is_file_at(&o, &exp), "a file of another package is mapped by the wrong description");
            }
            _ => {
                // down into the next directory
                sym::assume(l < 3);
                let next = [("w", "./w/own"), ("a", "./a/own"), ("b", "./b/own")][l].1;
                let o = resolve(&r, &at, next);
                note_out("down", &o);
                let dn = l + 1;
                let exp = if near(dn as i32) == Some(dn) { t(dn) } else { join(&vfs::abs(dirs[dn]), "own.js") };
                sym::check(is_file_at(&o, &exp), "a file of another package is mapped by the wrong description");
            }
        }
    }
}

// ------------------------------------------------------------------ C33
/// C33: the same tree three times: with the custom name (and misleading package.json), with package.json, without
#[no_mangle]
pub extern "C" fn check_C33_names() {
    let docs = [
        "",
        "{}",
        "{\"main\":\"./a.js\"}",
        "{\"main\":\"./a.js\",\"exports\":{\".\":\"./b.js\",\"./x\":\"./a.js\"}}",
        "{\"browser\":{\"./index.js\":\"./b.js\",\"./a.js\":false,\"q\":\"p\"}}",
        "{\"name\":\"p\",\"imports\":{\"#x\":\"./a.js\",\"#q\":\"q\"},\"exports\":{\"./x\":\"./b.js\"}}",
        "{\"name\":",
        "{\"sideEffects\":[\"s\"],\"main\":\"./sub\"}",
    ];
    let names = ["desc.json", "package", "node_modules.json", "a/b.json"];
    let name = names[sym::choose("name", 3)];
    // the metadata of the package, the importer, and what misleads
    let pd = sym::choose("package", docs.len());
    let wd = sym::choose("importer", docs.len());
    let md = sym::choose("noise", sym::param("noise", 2) as usize);
    let noise = ["{\"main\":\"./noise.js\",\"exports\":\"./noise.js\",\"imports\":{\"#x\":\"./noise.js\"},\"browser\":{\"./index.js\":false,\"p\":false},\"name\":\"q\"}", "{", "", "{\"exports\":{}}"][md];
    let build = |t: &str, with: &str, other: &str| {
        for d in ["node_modules/p", "w", "node_modules/q"] {
            let b = join(t, d);
            for f in ["index.js", "a.js", "b.js", "x.js", "noise.js", "sub/index.js"] {
                vfs::file(&join(&b, f), "");
            }
            let doc = match d {
                "w" => docs[wd],
                "node_modules/p" => docs[pd],
                _ => "",
            };
            if !with.is_empty() && !doc.is_empty() {
                vfs::file(&join(&b, with), doc);
            }
            if !other.is_empty() && !noise.is_empty() {
                vfs::file(&join(&b, other), noise);
            }
        }
    };
    let none = sym::flag("none");
    if none {
        build("t1", "package.json", name);
        build("t2", "", "");
    } else {
        build("t1", name, "package.json");
        build("t2", "package.json", name);
    }
    vfs::commit();
    let browser = sym::flag("browser");
    let mk = |d: Option<&str>| Resolver::new(ResolverOptions { description_file: d.map(|s| s.to_string()), browser_field: browser, ..opts(&sv(&[".js"])) });
    let a = mk(if none { None } else { Some(name) });
    let b = mk(Some("package.json"));
    let reqs = [("w", "p"), ("w", "p/x"), ("w", "#x"), ("w/sub", "./x"), ("w", "."), ("w", "q"), ("node_modules/p", "p/x"), ("w", "SIDE"), ("", "./node_modules/p")];
    let k = sym::choose("req", reqs.len());
    sym::assume(!none || reqs[k].1 != "SIDE");
    let swap = |s: &str| -> String {
        // t2 -> t1, package.json -> name
        let (f, t) = (vfs::abs("t2"), vfs::abs("t1"));
        let mut out = s.to_string();
        if out.as_bytes().len() > f.len() {
            if let Some(i) = find(&out, &f) {
                out = cat(&[&sub(&out, 0, i), &t, &sub(&out, i + f.len(), out.len())]);
            }
        }
        if let Some(i) = find(&out, "/package.json") {
            out = cat(&[&sub(&out, 0, i), "/", name, &sub(&out, i + 13, out.len())]);
        }
        out
    };
    let x = run(&a, &join("t1", reqs[k].0), reqs[k].1);
    let y = run(&b, &join("t2", reqs[k].0), reqs[k].1);
    note_ans("custom", &x);
    note_ans("default", &y);
    match (&x, &y) {
        (Ans::Side(p), Ans::Side(q)) => sym::check(*p == swap(q), "the side effects differ"),
        (Ans::Out(Out::File { path: p, .. }), Ans::Out(Out::File { path: q, .. })) => sym::check(*p == swap(q), "metadata of another file influenced the result"),
        (Ans::Out(Out::Ignored), Ans::Out(Out::Ignored)) => {}
        (Ans::Out(Out::Err(p)), Ans::Out(Out::Err(q))) => sym::check(*p == swap(q), "the error differs"),
        _ => sym::check(false, "metadata of another file influenced the result"),
    }
}
fn find(s: &str, t: &str) -> Option<usize> {
    let (a, b) = (s.as_bytes(), t.as_bytes());
    let mut i = 0;
    while i + b.len() <= a.len() {
        if &a[i..i + b.len()] == b {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// C33: any short name
#[no_mangle]
pub extern "C" fn check_C33_any() {
    let n = sym::fix(sym::range("len", 1, sym::param("n", 2) as u8) as usize);
    let mut v: Vec<u8> = vec![];
    for _ in 0..n {
        let c = sym::range("c", 0x20, 0x7e);
        sym::assume(c != b'/');
        v.push(c);
    }
    sym::assume(&v[..] != b"." && &v[..] != b"..");
    let name = unsafe { String::from_utf8_unchecked(v) };
    let how = sym::choose("how", 2);
    let base = ["w", "node_modules/p"][how];
    vfs::file(&join(base, "a.js.js"), "");
    vfs::file(&join(base, "index.js"), "");
    vfs::dir(&join(base, "sub0"));
    vfs::file(&join(base, "package.json"), "{\"imports\":{\"#x\":\"./index.js\"},\"main\":\"./index.js\",\"sideEffects\":true}");
    vfs::file(&join(base, "sub0/package.json"), "{");
    vfs::file(&join(base, &name), "{\"imports\":{\"#x\":\"./a.js.js\"},\"main\":\"./a.js\",\"sideEffects\":false}");
    vfs::commit();
    let r = Resolver::new(ResolverOptions { description_file: Some(name.clone()), ..opts(&sv(&[".js"])) });
    let sub = vfs::abs(&join(base, "sub0"));
    let exp = vfs::abs(&join(base, "a.js.js"));
    match sym::choose("op", 3) {
        0 => {
            let o = resolve(&r, &sub, "#x");
            note_kind("#x", &o);
            sym::check(is_file_at(&o, &exp), "the description file of that name is not used for an internal request");
        }
        1 => {
            let o = resolve(&r, &vfs::abs(""), ["./w", "p"][how]);
            note_kind("main", &o);
            sym::check(is_file_at(&o, &exp), "the description file of that name is not used for the entry point");
        }
        _ => {
            let s = side(&r, &sub);
            sym::check(s == cat(&[&vfs::abs(&join(base, &name)), " false"]), "the description file of that name is not reported");
        }
    }
}
