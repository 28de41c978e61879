//! Relations between answers: configuration that does not apply, other spellings of the issuing
//! directory, and the documented defaults.
use super::refr::*;
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;
use std::sync::Arc;

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("check_C34_noise", check_C34_noise),
    ("check_C35_spelling", check_C35_spelling),
    ("check_C36_defaults", check_C36_defaults),
];

const REQUESTS: [&str; 25] = [
    "pkg", "pkg/sub", "pkg/w/sub", "pkg/lib/sub.js", "@s/pkg", "@s/pkg/sub", "miss", "@s/miss/x", "#int", "#pkg", "#mis", "self", "self/sub", "self/mis", "./foo",
    "./foo.js", "./dir", "./dir/", "./dir/bar", "../foo", ".", "./mis", "./foo?q", "pkg?q#f", "alx",
];
/// requests below this index have no file or directory of that name beside the importer
const NOT_LOCAL: usize = 14;

/// what is put into the tree: (exports, imports, browser, document, condition) entries, at the front or the end
#[derive(Default)]
struct Extra {
    exports: String,
    imports: String,
    browser: String,
    field: String,
    cond: String,
    front: bool,
}
fn ins(front: bool, e: &str, body: &str) -> String {
    if e.is_empty() {
        cat(&["{", body, "}"])
    } else if front {
        cat(&["{", e, ",", body, "}"])
    } else {
        cat(&["{", body, ",", e, "}"])
    }
}
fn world(t: &str, exp: bool, browser: bool, x: &Extra) {
    let cond = |v: &str| if x.cond.is_empty() { cat(&["\"", v, "\""]) } else { cat(&["{\"", &x.cond, "\":\"./ggg.js\",\"default\":\"", v, "\"}"]) };
    let ex = ins(x.front, &x.exports, &cat(&["\".\":", &cond("./foo.js"), ",\"./sub\":\"./dir/bar.js\""]));
    let im = ins(x.front, &x.imports, &cat(&["\"#int\":", &cond("./foo.js"), ",\"#pkg\":\"pkg\""]));
    let br = ins(x.front, &x.browser, "\"./foo.js\":\"./dir/bar.js\",\"pkg\":\"other\",\"@s/pkg\":false");
    let mut doc = cat(&["\"name\":\"self\",\"exports\":", &ex, ",\"imports\":", &im]);
    if browser {
        doc = cat(&[&doc, ",\"browser\":", &br]);
    }
    vfs::file(&join(t, "package.json"), &ins(x.front, &x.field, &doc));
    let pk = if exp {
        cat(&["\"exports\":", &ins(x.front, &x.exports, &cat(&["\".\":", &cond("./main.js"), ",\"./sub\":\"./lib/sub.js\",\"./w/*\":\"./lib/*.js\""])), ",\"main\":\"./sub.js\""])
    } else {
        "\"main\":\"./main\"".to_string()
    };
    vfs::file(&join(t, "node_modules/pkg/package.json"), &ins(x.front, &x.field, &pk));
    for f in ["foo.js", "ggg.js", "dir/index.js", "dir/bar.js", "node_modules/pkg/main.js", "node_modules/pkg/sub.js", "node_modules/pkg/ggg.js", "node_modules/pkg/lib/sub.js", "node_modules/@s/pkg/index.js", "node_modules/@s/pkg/sub.js", "node_modules/other/index.js"] {
        vfs::file(&join(t, f), "");
    }
}
/// one name of 1..n printable characters
fn name(n: usize) -> String {
    let k = sym::fix(sym::range("namelen", 1, n as u8) as usize);
    let mut s = String::new();
    for _ in 0..k {
        let c = sym::range("name", b'!', b'~');
        sym::assume(c != b'"' && c != b'\\' && c != b'/' && c != b'*' && c != b'.' && c != b'?' && c != b'#');
        s.push(c as char);
    }
    s
}
fn begins(s: &str, p: &str) -> bool {
    let (s, p) = (s.as_bytes(), p.as_bytes());
    s.len() >= p.len() && s[..p.len()] == *p
}
/// the second tree is named as the first
fn rename(s: &str) -> String {
    let (a, b) = (vfs::abs("u"), vfs::abs("v"));
    let (sb, bb) = (s.as_bytes(), b.as_bytes());
    let mut v: Vec<u8> = vec![];
    let mut i = 0;
    while i < sb.len() {
        if sb.len() - i >= bb.len() && sb[i..i + bb.len()] == *bb {
            v.extend_from_slice(a.as_bytes());
            i += bb.len();
        } else {
            v.push(sb[i]);
            i += 1;
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn renamed(o: &Out) -> Out {
    match o {
        Out::File { path, query, fragment } => Out::File { path: rename(path), query: query.to_string(), fragment: fragment.to_string() },
        Out::Ignored => Out::Ignored,
        Out::Err(e) => Out::Err(rename(e)),
    }
}

/// C34: the same tree and options with and without one thing that does not apply
#[no_mangle]
pub extern "C" fn check_C34_noise() {
    let n = sym::param("n", 2) as usize;
    let what = sym::choose("what", 20);
    let ri = sym::choose("req", REQUESTS.len());
    let req = REQUESTS[ri];
    let deep = sym::flag("deep");
    let exp = sym::flag("exp");
    let browser = sym::flag("browser");
    let mut x = Extra { front: sym::flag("front"), ..Default::default() };
    let mk = || ResolverOptions {
        alias: vec![("alx".into(), AliasMap::Target("./foo.js".into()))],
        browser_field: browser,
        ..opts(&sv(&[".js", ".json"]))
    };
    let a = mk();
    let mut b = mk();
    let front = x.front;
    let put = |v: &mut Vec<String>, s: String| if front { v.insert(0, s) } else { v.push(s) };
    let mut extra_file: Option<(u8, String)> = None;
    let mut ts = String::new();
    let mut map = browser;
    match what {
        0 | 1 => {
            let k = name(n);
            sym::assume(!begins(req, &k) && !begins("./foo.js", &k));
            let e = (k, if what == 0 { AliasMap::Ignored } else { AliasMap::Target("./ggg.js".into()) });
            if front {
                b.alias.insert(0, e)
            } else {
                b.alias.push(e)
            }
        }
        2 => {
            b.condition_names.insert(name(n));
        }
        3 => put(&mut b.extensions, cat(&[".", &name(n)])),
        4 => put(&mut b.main_fields, name(n)),
        5 => put(&mut b.main_files, name(n)),
        6 => {
            sym::assume(ri < NOT_LOCAL || req.as_bytes()[0] == b'.');
            b.prefer_relative = true;
        }
        7 => {
            let k = name(n);
            sym::assume(!begins(req, &k));
            ts = cat(&["{\"compilerOptions\":{\"paths\":{\"", &k, if front { "" } else { "*" }, "\":[\"./ggg.js\"]}}}"]);
        }
        8 => x.field = cat(&["\"", &name(n), "\":", ["\"./ggg.js\"", "{\".\":\"./ggg.js\"}", "false"][sym::choose("value", 3)]]),
        9 => x.exports = cat(&["\"./", &name(n), "\":\"./ggg.js\""]),
        10 => x.imports = cat(&["\"#", &name(n), "\":\"./ggg.js\""]),
        11 => x.browser = cat(&["\"", if sym::flag("dot") { "./" } else { "" }, &name(n), "\":", if sym::flag("off") { "false" } else { "\"./ggg.js\"" }]),
        12 => extra_file = Some((vfs::FILE, name(n))),
        13 => extra_file = Some((vfs::DIR, name(n))),
        14 => b.symlinks = false,
        15 => b.external_cache = Some(Arc::new(ResolverCache::default())),
        16 => b.enforce_extension = Some(false),
        17 => {
            map = false;
            b.browser_field = !a.browser_field;
        }
        18 => {
            let k = name(n);
            x.cond = k;
        }
        _ => ts = "{\"compilerOptions\":{\"target\":\"es5\"},\"include\":[\"pkg\"]}".to_string(),
    }
    world("u", exp, map, &Extra::default());
    world("v", exp, map, &x);
    if let Some((k, s)) = &extra_file {
        for d in ["v", "v/node_modules", "v/node_modules/pkg", "v/node_modules/pkg/lib", "v/dir"] {
            let i = vfs::dir(d);
            vfs::add_named(i, s.as_bytes(), *k, b"");
        }
        let i = vfs::dir("v/node_modules");
        let m = vfs::add_named(i, cat(&["pkg", s]).as_bytes(), vfs::DIR, b"");
        vfs::add_named(m, b"main.js", vfs::FILE, b"");
        let i = vfs::dir("v/node_modules/@s");
        vfs::add_named(i, s.as_bytes(), *k, b"");
    }
    if !ts.is_empty() {
        vfs::file("ts/tsconfig.json", &ts);
        b.tsconfig = Some(vfs::abs("ts/tsconfig.json").into());
    }
    vfs::commit();
    let o1 = resolve(&Resolver::new(a), &vfs::abs(if deep { "u/dir" } else { "u" }), req);
    let o2 = resolve(&Resolver::new(b), &vfs::abs(if deep { "v/dir" } else { "v" }), req);
    note_out("without", &o1);
    note_out("with", &o2);
    sym::check(o1 == renamed(&o2), "something that does not apply changes the answer");
}

/// C35: slashes and "." in the issuing directory
#[no_mangle]
pub extern "C" fn check_C35_spelling() {
    let ri = sym::choose("req", REQUESTS.len());
    let exp = sym::flag("exp");
    let browser = sym::flag("browser");
    world("u", exp, true, &Extra::default());
    vfs::commit();
    let segs: &[&str] = [&["u"][..], &["u", "dir"][..], &["u", "node_modules", "pkg"][..]][sym::choose("dir", 3)];
    let seps = ["/", "//", "/./"];
    let mut plain = vfs::abs("");
    let mut spelled = vfs::abs("");
    for s in segs {
        plain = cat(&[&plain, "/", s]);
        spelled = cat(&[&spelled, seps[sym::choose("sep", seps.len())], s]);
    }
    spelled.push_str(["", "/", "/."][sym::choose("end", 3)]);
    let first = sym::flag("first");
    let mk = || Resolver::new(ResolverOptions {
        alias: vec![("alx".into(), AliasMap::Target("./foo.js".into()))],
        browser_field: browser,
        symlinks: false,
        ..opts(&sv(&[".js", ".json"]))
    });
    let req = REQUESTS[ri];
    let o1 = resolve(&mk(), &plain, req);
    let r = mk();
    // with the plain spelling already known to the resolver, or not
    if first {
        let _ = resolve(&r, &plain, "./mis");
    }
    let o2 = resolve(&r, &spelled, req);
    note_out("plain", &o1);
    note_out("spelled", &o2);
    match (&o1, &o2) {
        // the message shows the directory as it was given
        (Out::Err(_), Out::Err(_)) => {}
        _ => sym::check(o1 == o2, "another spelling of the issuing directory changes the answer"),
    }
    let s1 = side(&mk(), &plain);
    let s2 = side(&r, &spelled);
    sym::check(s1 == s2, "another spelling of a directory has another description");
}
fn side(r: &Resolver, d: &str) -> (bool, bool, std::path::PathBuf) {
    match r.load_side_effects(std::path::Path::new(d)) {
        Err(_) => (false, false, Default::default()),
        Ok(None) => (true, false, Default::default()),
        Ok(Some((p, s))) => (true, s.is_some(), p),
    }
}

/// C36: leaving an option out means its documented default
#[no_mangle]
pub extern "C" fn check_C36_defaults() {
    for f in ["f", "f.js", "f.json", "f.node", "d/index", "d/index.js", "d/index.json", "d/index.node", "d/main", "d/m.js", "d/mod.js", "d/br.js", "d/main.js"] {
        vfs::maybe(f, &[vfs::ABSENT, vfs::FILE], "");
    }
    let pkg = sym::choose("pkg", 4);
    let doc = ["", "{\"main\":\"./m\",\"module\":\"./mod\",\"browser\":\"./br\",\"sideEffects\":false}", "{\"module\":\"./mod\",\"browser\":{\"./index.js\":\"./mod.js\",\"./mod\":false},\"jsnext:main\":\"./br\"}", "{\"exports\":{\"browser\":\"./br.js\",\"import\":\"./mod.js\",\"require\":\"./mod.js\",\"node\":\"./m.js\",\"default\":\"./main.js\"},\"main\":\"./index\"}"][pkg];
    if pkg > 0 {
        vfs::file("d/package.json", doc);
    }
    vfs::link("l.js", "f.js");
    vfs::link("node_modules/p", "../d");
    vfs::link("ld", "d");
    vfs::file("package2.json", "{}");
    vfs::file("tsconfig.json", "{\"compilerOptions\":{\"paths\":{\"p\":[\"./f\"]}}}");
    vfs::commit();
    let full = || ResolverOptions {
        extensions: sv(&[".js", ".json", ".node"]),
        enforce_extension: None,
        alias: vec![],
        prefer_relative: false,
        external_cache: None,
        symlinks: true,
        description_file: Some("package.json".to_string()),
        main_files: sv(&["index"]),
        main_fields: sv(&["main"]),
        browser_field: false,
        condition_names: ["node".to_string()].into_iter().collect(),
        tsconfig: None,
    };
    let req = ["./f", "./d", "p", "p/m", "f", "./l", "./ld", "./d/mod", "./f.js"][sym::choose("req", 9)];
    let o1 = resolve(&Resolver::new(ResolverOptions::default()), &vfs::abs(""), req);
    let o2 = resolve(&Resolver::new(full()), &vfs::abs(""), req);
    note_out("default", &o1);
    sym::check(o1 == o2, "the default of an option is not the documented one");
    // Some(true) / Some(false) for an enforcement that is left out: it depends on the empty extension only
    let e = sym::choose("exts", 4);
    let exts = [sv(&[".js"]), sv(&["", ".js"]), sv(&[".js", ""]), sv(&[])];
    let has = e == 1 || e == 2;
    let o3 = resolve(&Resolver::new(ResolverOptions { extensions: exts[e].to_vec(), ..full() }), &vfs::abs(""), req);
    let o4 = resolve(&Resolver::new(ResolverOptions { extensions: exts[e].to_vec(), enforce_extension: Some(has), ..full() }), &vfs::abs(""), req);
    note_out("left_out", &o3);
    sym::check(o3 == o4, "enforcement that is left out does not depend on the empty extension alone");
}
