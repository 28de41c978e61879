//! A name in the configuration and a name in the request or the tree, both of any printable characters:
//! the entry applies exactly if they are the same.
use super::refr::*;
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("check_C04_any", check_C04_any),
    ("check_C06_any", check_C06_any),
    ("check_C08_any", check_C08_any),
    ("check_C10_any", check_C10_any),
    ("check_C12_any", check_C12_any),
    ("check_C13_any", check_C13_any),
    ("check_C14_any", check_C14_any),
    ("check_C26_any", check_C26_any),
    ("check_C27_any", check_C27_any),
];

/// 1..n printable characters (blank included) but those that have a meaning in requests, keys or JSON
fn text(name: &str, n: usize) -> String {
    let k = sym::fix(sym::range(name, 1, n as u8) as usize);
    let mut s = String::new();
    for _ in 0..k {
        let c = sym::range(name, b' ', b'~');
        sym::assume(c != b'"' && c != b'\\' && c != b'/' && c != b'*' && c != b'.' && c != b'?' && c != b'#' && c != b':' && c != b'@');
        s.push(c as char);
    }
    s
}
fn two() -> (String, String) {
    let n = sym::param("n", 2) as usize;
    let (k, s) = (text("key", n), text("said", n));
    sym::assume(k.len() + s.len() <= sym::param("both", 4) as usize);
    (k, s)
}
fn begins(s: &str, p: &str) -> bool {
    let (s, p) = (s.as_bytes(), p.as_bytes());
    s.len() >= p.len() && s[..p.len()] == *p
}
fn put(dir: &str, name: &str) {
    let d = vfs::dir(dir);
    vfs::add_named(d, name.as_bytes(), vfs::FILE, b"");
}
fn none() -> Vec<String> {
    vec![]
}

/// C04: an extension
#[no_mangle]
pub extern "C" fn check_C04_any() {
    let (k, s) = two();
    put("d", &cat(&["f.", &s]));
    vfs::commit();
    let e = if sym::flag("second") { vec![".zzz".to_string(), cat(&[".", &k])] } else { vec![cat(&[".", &k])] };
    let o = resolve(&Resolver::new(opts(&e)), &vfs::abs("d"), "./f");
    note_out("out", &o);
    let exp = if k == s { Some(cat(&[&vfs::abs("d/f."), &s])) } else { None };
    expect(&o, &exp, false, "an extension is not taken as it is written");
}

/// C06: the name of a main field, of a main file
#[no_mangle]
pub extern "C" fn check_C06_any() {
    let (k, s) = two();
    vfs::file("d/m", "");
    vfs::file("d/index", "");
    let field = sym::flag("field");
    let mut o = opts(&none());
    if field {
        vfs::file("d/package.json", &cat(&["{\"", &s, "\":\"m\"}"]));
        o.main_fields = vec![k.to_string()];
    } else {
        put("d", &s);
        o.main_files = vec![k.to_string(), "index".to_string()];
        // an entry of the tree
        sym::assume(k.as_bytes() != b"m");
    }
    vfs::commit();
    let o = resolve(&Resolver::new(o), &vfs::abs(""), "./d");
    note_out("out", &o);
    let exp = match (k == s, field) {
        (true, true) => vfs::abs("d/m"),
        (true, false) => cat(&[&vfs::abs("d/"), &s]),
        _ => vfs::abs("d/index"),
    };
    sym::check(is_file_at(&o, &exp), "a main field or main file is not taken as it is written");
}

/// C08: a listed subpath
#[no_mangle]
pub extern "C" fn check_C08_any() {
    let (k, s) = two();
    let deep = if sym::flag("deep") { "l/" } else { "" };
    vfs::file("node_modules/p/package.json", &cat(&["{\"exports\":{\"./", deep, &k, "\":\"./t\",\".\":\"./u\"}}"]));
    vfs::file("node_modules/p/t", "");
    vfs::file("node_modules/p/u", "");
    put(if deep.is_empty() { "node_modules/p" } else { "node_modules/p/l" }, &s);
    vfs::commit();
    let o = resolve(&Resolver::new(opts(&none())), &vfs::abs(""), &cat(&["p/", deep, &s]));
    note_out("out", &o);
    let exp = if k == s { Some(vfs::abs("node_modules/p/t")) } else { None };
    expect(&o, &exp, false, "a subpath that is not listed resolves, or a listed one does not");
}

/// C10: the name of a condition
#[no_mangle]
pub extern "C" fn check_C10_any() {
    let (k, s) = two();
    let nested = sym::flag("nested");
    let map = cat(&["{\"", &k, "\":\"./t\",\"default\":\"./u\"}"]);
    let map = if nested { cat(&["{\"zz9\":\"./v\",\"default\":", &map, "}"]) } else { map };
    let imports = sym::flag("imports");
    if imports {
        vfs::file("node_modules/p/package.json", &cat(&["{\"imports\":{\"#i\":", &map, "}}"]));
    } else {
        vfs::file("node_modules/p/package.json", &cat(&["{\"exports\":", &map, "}"]));
    }
    for f in ["t", "u", "v"] {
        vfs::file(&cat(&["node_modules/p/", f]), "");
    }
    vfs::commit();
    let r = Resolver::new(ResolverOptions { condition_names: [s.to_string()].into_iter().collect(), ..opts(&none()) });
    let o = if imports { resolve(&r, &vfs::abs("node_modules/p"), "#i") } else { resolve(&r, &vfs::abs(""), "p") };
    note_out("out", &o);
    sym::check(is_file_at(&o, &vfs::abs(if k == s { "node_modules/p/t" } else { "node_modules/p/u" })), "a condition is not taken as it is written");
}

/// C12: a key of the imports map
#[no_mangle]
pub extern "C" fn check_C12_any() {
    let (k, s) = two();
    let deep = if sym::flag("deep") { "l/" } else { "" };
    vfs::file("d/package.json", &cat(&["{\"imports\":{\"#", deep, &k, "\":\"./t\"}}"]));
    vfs::file("d/t", "");
    put("d", &cat(&["#", &s]));
    put("d/node_modules", &cat(&["#", &s]));
    vfs::commit();
    let r = Resolver::new(ResolverOptions { prefer_relative: sym::flag("prefer"), ..opts(&none()) });
    let o = resolve(&r, &vfs::abs("d"), &cat(&["#", deep, &s]));
    note_out("out", &o);
    let exp = if k == s { Some(vfs::abs("d/t")) } else { None };
    expect(&o, &exp, false, "an internal request that is not listed resolves, or a listed one does not");
}

/// C13: a key of the aliases
#[no_mangle]
pub extern "C" fn check_C13_any() {
    let (k, s) = two();
    let (kd, sd) = (sym::flag("keydot"), sym::flag("dot"));
    let key = if kd { cat(&["./", &k]) } else { k };
    let req = if sd { cat(&["./", &s]) } else { s.to_string() };
    put("d", &s);
    put("d/node_modules", &s);
    vfs::file("t", "");
    vfs::commit();
    let hit = begins(&req, &key);
    // to one file whatever follows the key, or ignored
    let ignored = sym::flag("ignored");
    let to = if ignored { AliasMap::Ignored } else { AliasMap::Target("../t".into()) };
    if hit && !ignored {
        sym::assume(req.len() == key.len());
    }
    let o = resolve(&Resolver::new(ResolverOptions { alias: vec![(key, to)], ..opts(&none()) }), &vfs::abs("d"), &req);
    note_out("out", &o);
    if hit && ignored {
        sym::check(o == Out::Ignored, "a request that begins with an ignored key is not ignored");
    } else {
        let exp = if hit { vfs::abs("t") } else { cat(&[&vfs::abs(if sd { "d/" } else { "d/node_modules/" }), &s]) };
        sym::check(is_file_at(&o, &exp), "an alias applies to a request that does not begin with its key, or does not apply to one that does");
    }
}

/// C14: a key of the browser map
#[no_mangle]
pub extern "C" fn check_C14_any() {
    let (k, s) = two();
    let (kd, sd) = (sym::flag("keydot"), sym::flag("dot"));
    let off = sym::flag("ignored");
    let ext = sym::flag("ext");
    vfs::file("d/package.json", &cat(&["{\"browser\":{\"", if kd { "./" } else { "" }, &k, if ext { ".js" } else { "" }, "\":", if off { "false" } else { "\"./t\"" }, "}}"]));
    vfs::file("d/t", "");
    // not the target itself
    sym::assume(s.as_bytes() != b"t");
    put("d", &s);
    put("d/node_modules", &s);
    vfs::commit();
    let r = Resolver::new(ResolverOptions { browser_field: true, ..opts(&if ext { sv(&[".js"]) } else { none() }) });
    let o = resolve(&r, &vfs::abs("d"), &if sd { cat(&["./", &s]) } else { s.to_string() });
    note_out("out", &o);
    // a file is named with and without "./", with its extension added; a module exactly
    let hit = k == s && if sd { true } else { !kd && !ext };
    if hit && off {
        sym::check(o == Out::Ignored, "a replaced module or file is not ignored");
    } else {
        let exp = if hit { vfs::abs("d/t") } else { cat(&[&vfs::abs(if sd { "d/" } else { "d/node_modules/" }), &s]) };
        sym::check(is_file_at(&o, &exp), "a browser entry applies to another module or file, or not to the one it names");
    }
}

/// C26: a key of tsconfig paths
#[no_mangle]
pub extern "C" fn check_C26_any() {
    let (k, s) = two();
    let star = sym::choose("star", 3);
    let key = match star {
        0 => k.to_string(),
        1 => cat(&[&k, "*"]),
        _ => cat(&["*", &k]),
    };
    vfs::file("d/tsconfig.json", &cat(&["{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"", &key, "\":[\"./t\"]}}}"]));
    vfs::file("d/t", "");
    put("d/node_modules", &s);
    vfs::commit();
    let r = Resolver::new(ResolverOptions { tsconfig: Some(vfs::abs("d/tsconfig.json").into()), ..opts(&none()) });
    let o = resolve(&r, &vfs::abs("d"), &s);
    note_out("out", &o);
    let (kb, sb) = (k.as_bytes(), s.as_bytes());
    let hit = match star {
        0 => k == s,
        1 => begins(&s, &k),
        _ => sb.len() >= kb.len() && sb[sb.len() - kb.len()..] == *kb,
    };
    let exp = if hit { vfs::abs("d/t") } else { cat(&[&vfs::abs("d/node_modules/"), &s]) };
    sym::check(is_file_at(&o, &exp), "a paths key applies to another request, or not to the one it names");
}

/// C27: the name of the extended file
#[no_mangle]
pub extern "C" fn check_C27_any() {
    let (k, s) = two();
    vfs::file("d/tsconfig.json", &cat(&["{\"extends\":\"./", &k, "\",\"compilerOptions\":{\"baseUrl\":\".\"}}"]));
    let d = vfs::dir("d");
    vfs::add_named(d, cat(&[&s, ".json"]).as_bytes(), vfs::FILE, b"{\"compilerOptions\":{\"paths\":{\"q\":[\"./zzz\"]}}}");
    vfs::file("d/zzz", "");
    vfs::file("d/node_modules/q", "");
    vfs::commit();
    let r = Resolver::new(ResolverOptions { tsconfig: Some(vfs::abs("d/tsconfig.json").into()), ..opts(&sv(&[".json"])) });
    let o = resolve(&r, &vfs::abs("d"), "q");
    note_out("out", &o);
    if k == s {
        sym::check(is_file_at(&o, &vfs::abs("d/zzz")), "the settings of the extended file do not apply");
    } else {
        // a missing file may be reported or skipped
        sym::check(is_err(&o) || is_file_at(&o, &vfs::abs("d/node_modules/q")), "the settings of another file apply");
    }
}
