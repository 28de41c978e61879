//! Rewriting routes: C02, C13, C14
use super::refr::*;
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("check_C02_routes", check_C02_routes),
    ("check_C13_alias", check_C13_alias),
    ("check_C13_order", check_C13_order),
    ("check_C14_map", check_C14_map),
    ("check_C14_chain", check_C14_chain),
    ("check_C14_package", check_C14_package),
];

/// C02: query and fragment along every route
#[no_mangle]
pub extern "C" fn check_C02_routes() {
    // (request target, file it leads to, is the subpath matched together with the query)
    let routes: [(&str, &str, bool); 27] = [
        ("./f", "w/f.js", false),
        ("./f.js", "w/f.js", false),
        ("./d", "w/d/index.js", false),
        ("al", "w/f.js", false),
        ("al/f", "w/f.js", false),
        ("alp", "node_modules/p/m.js", false),
        ("rel", "w/rel.js", false),
        ("p", "node_modules/p/m.js", false),
        ("p/x", "node_modules/p/x.js", false),
        ("@s/p", "node_modules/@s/p/lib/index.js", false),
        ("q", "node_modules/q/index.js", false),
        ("./g", "w/f.js", false),
        ("mod", "w/f.js", false),
        ("modq", "node_modules/q/index.js", false),
        ("e/lib/x.js", "node_modules/e/src/x.js", true),
        ("e/w/x.js", "node_modules/e/src/x.js", true),
        ("e/c/x.js", "node_modules/e/src/x.js", true),
        ("ts/f", "w/f.js", false),
        ("tsx", "w/d/index.js", false),
        ("b", "node_modules/b/n.js", false),
        ("single", "node_modules/single.js", false),
        ("zal", "w/f.js", false),
        ("#i", "w/f.js", false),
        ("#c", "w/f.js", false),
        ("#w/f", "w/f.js", false),
        ("#l/x.js", "node_modules/p/x.js", false),
        ("#p", "node_modules/p/m.js", false),
    ];
    vfs::file("w/package.json", "{\"browser\":{\"./g.js\":\"./f.js\",\"mod\":\"./f\",\"modq\":\"q\"},\"imports\":{\"#i\":{\"node\":\"./f.js\"},\"#c\":\"#i\",\"#w/*\":\"./*.js\",\"#l/\":\"p/\",\"#p\":\"p\"}}");
    for f in ["w/f.js", "w/d/index.js", "w/rel.js", "node_modules/p/m.js", "node_modules/p/x.js", "node_modules/@s/p/lib/index.js", "node_modules/q/index.js",
        "node_modules/e/src/x.js", "node_modules/b/m.js", "node_modules/b/n.js", "node_modules/single.js"]
    {
        vfs::file(f, "");
    }
    vfs::file("node_modules/p/package.json", "{\"main\":\"m.js\"}");
    vfs::file("node_modules/@s/p/package.json", "{\"main\":\"./lib\"}");
    vfs::file("node_modules/e/package.json", "{\"exports\":{\"./lib/\":\"./src/\",\"./w/*\":\"./src/*\",\"./c/*\":{\"node\":[\"./gone/*\",\"./src/*\"]}}}");
    vfs::file("node_modules/b/package.json", "{\"main\":\"./m.js\",\"browser\":{\"./m.js\":\"./n.js\"}}");
    vfs::file("w/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"ts/*\":[\"./gone/*\",\"./*\"],\"tsx\":[\"d\"]}}}");
    vfs::commit();
    let i = sym::choose("route", routes.len());
    let (t, file, map) = routes[i];
    let n = sym::param("n", 2) as usize;
    let mut q = String::new();
    if sym::flag("query") {
        q.push('?');
        let k = sym::fix(sym::range("qn", 0, n as u8) as usize);
        for _ in 0..k {
            let c = sym::range("q", b' ', b'~');
            sym::assume(c != b'#');
            q.push(c as char);
        }
        if sym::flag("qu") {
            q.push(['\u{e9}', '\u{4e2d}'][sym::choose("quc", 2)]);
        }
    }
    let mut f = String::new();
    if sym::flag("fragment") {
        f.push('#');
        let k = sym::fix(sym::range("fn", 0, n as u8) as usize);
        for _ in 0..k {
            f.push(sym::range("f", b' ', b'~') as char);
        }
    }
    if map {
        // matched with the subpath: a trailing slash would ask for a directory
        let l = if f.is_empty() { &q } else { &f };
        sym::assume(l.is_empty() || l.as_bytes()[l.len() - 1] != b'/');
    }
    let ts = i == 17 || i == 18 || sym::flag("tsconfig");
    let exts = sv(&[".js"]);
    let r = Resolver::new(ResolverOptions {
        alias: vec![
            ("alp".into(), AliasMap::Target("p".into())),
            ("zal".into(), AliasMap::Target("al".into())),
            ("al/".into(), AliasMap::Target("./".into())),
            ("al".into(), AliasMap::Target("./f".into())),
        ],
        prefer_relative: i == 6 || sym::flag("prefer"),
        browser_field: true,
        tsconfig: if ts { Some(vfs::abs("w/tsconfig.json").into()) } else { None },
        ..opts(&exts)
    });
    let o = resolve_joined(&r, &vfs::abs("w"), &cat(&[t, &q, &f]));
    note_out("out", &o);
    match &o {
        Out::File { path, query, fragment } => {
            sym::check(*path == vfs::abs(file), "the query or fragment changed the file");
            sym::check(*query == q, "the query is not the one of the request");
            sym::check(*fragment == f, "the fragment is not the one of the request");
        }
        _ => sym::check(false, "the request does not resolve"),
    }
}

// ------------------------------------------------------------------ C13
fn clone_out(o: Out) -> Out {
    o
}
/// the statement, word by word; `base` answers requests without aliases
fn alias_ref(alias: &[(String, AliasMap)], base: &Resolver, dir: &str, req: &str, depth: usize) -> Out {
    // cyclic configurations are C23
    sym::assume(depth < 5);
    for (from, to) in alias {
        if req.as_bytes().starts_with(from.as_bytes()) {
            match to {
                AliasMap::Ignored => return Out::Ignored,
                AliasMap::Target(t) => {
                    if req.as_bytes().starts_with(t.as_bytes()) {
                        continue;
                    }
                    let new = cat(&[t, &sub(req, from.len(), req.len())]);
                    let r = alias_ref(alias, base, dir, &new, depth + 1);
                    if !is_err(&r) {
                        return clone_out(r);
                    }
                }
            }
        }
    }
    resolve(base, dir, req)
}
fn alias_world() {
    for f in ["w/a", "w/ab.js", "w/b/index.js", "w/a.d/b", "node_modules/b", "node_modules/bb/a", "node_modules/ab/index.js", "a", "aa.js", "node_modules/a.js"] {
        vfs::file(f, "");
    }
}
fn target(name: &str, n: usize) -> AliasMap {
    match sym::choose("kind", 3) {
        0 => AliasMap::Ignored,
        1 => AliasMap::Target(sym::string(name, 1, n, b"ab/")),
        _ => AliasMap::Target(cat(&["./", &sym::string(name, 1, n, b"ab/")])),
    }
}
fn note_alias(alias: &[(String, AliasMap)]) {
    for (k, t) in alias {
        match t {
            AliasMap::Ignored => note_s("alias", &cat(&[k, " ->"])),
            AliasMap::Target(t) => note_s("alias", &cat(&[k, " -> ", t])),
        }
    }
}
/// C13: symbolic keys, targets and requests
#[no_mangle]
pub extern "C" fn check_C13_alias() {
    alias_world();
    vfs::commit();
    let n = sym::param("n", 2) as usize;
    let k = sym::param("alias", 2) as usize;
    let mut alias = vec![];
    for i in 0..k {
        let key = sym::string("k", if i == 0 { 0 } else { 1 }, if i == 0 { n } else { 1 }, b"ab/");
        let t = target("t", if i == 0 { n } else { 1 });
        alias.push((key, t));
    }
    let req = sym::string("r", 1, n + 1, b"ab/.");
    let exts = sv(&[".js"]);
    let base = Resolver::new(opts(&exts));
    let r = Resolver::new(ResolverOptions { alias: alias.clone(), ..opts(&exts) });
    let dir = vfs::abs("w");
    note_alias(&alias);
    note_s("req", &req);
    let exp = alias_ref(&alias, &base, &dir, &req, 0);
    note_out("exp", &exp);
    let o = resolve(&r, &dir, &req);
    note_out("out", &o);
    if is_err(&exp) {
        sym::check(is_err(&o), "resolved although no rewriting and not the request itself resolves");
    } else {
        sym::check(o == exp, "not the answer of the first rewriting that resolves");
    }
}
/// C13: three entries from a menu, in every order
#[no_mangle]
pub extern "C" fn check_C13_order() {
    alias_world();
    vfs::file("w/package.json", "{\"browser\":{\"b\":\"./ab\"},\"imports\":{\"#a\":\"./a\"}}");
    vfs::commit();
    let keys = ["a", "a/", "ab", "@", "./a", "#a", "/"];
    let targets = ["", "b", "./b", "./gone", "a/b", "bb/", "@/x", "./a?q", "#a", "gone"];
    let mut alias = vec![];
    let n = sym::param("entries", 2) as usize;
    for _ in 0..n {
        let k = keys[sym::choose("key", keys.len())].to_string();
        let t = sym::choose("target", targets.len());
        alias.push((k, if t == 0 { AliasMap::Ignored } else { AliasMap::Target(targets[t].to_string()) }));
    }
    let reqs = ["a", "ab", "a/b", "@/a", "./a", "./ab", "#a", "b", "a?x#y", "aa"];
    let req = reqs[sym::choose("req", reqs.len())];
    let exts = sv(&[".js"]);
    let mk = |alias: Vec<(String, AliasMap)>| Resolver::new(ResolverOptions { alias, browser_field: true, ..opts(&exts) });
    let base = mk(vec![]);
    let r = mk(alias.clone());
    let dir = vfs::abs("w");
    note_alias(&alias);
    note_s("req", req);
    // the target of an entry is a path: query and fragment of the request stay
    let b = req.as_bytes();
    let cut = if req == "a?x#y" { 1 } else { b.len() };
    let exp = alias_cut(&alias, &base, &dir, &sub(req, 0, cut), &sub(req, cut, b.len()), 0);
    note_out("exp", &exp);
    let o = resolve(&r, &dir, req);
    note_out("out", &o);
    if is_err(&exp) {
        sym::check(is_err(&o), "resolved although no rewriting and not the request itself resolves");
    } else {
        sym::check(o == exp, "not the answer of the first rewriting that resolves");
    }
}
fn alias_cut(alias: &[(String, AliasMap)], base: &Resolver, dir: &str, path: &str, tail: &str, depth: usize) -> Out {
    sym::assume(depth < 5);
    for (from, to) in alias {
        if path.as_bytes().starts_with(from.as_bytes()) {
            match to {
                AliasMap::Ignored => return Out::Ignored,
                AliasMap::Target(t) => {
                    if path.as_bytes().starts_with(t.as_bytes()) {
                        continue;
                    }
                    let new = cat(&[t, &sub(path, from.len(), path.len())]);
                    let r = alias_cut(alias, base, dir, &new, tail, depth + 1);
                    if !is_err(&r) {
                        return r;
                    }
                }
            }
        }
    }
    // a "?" in a target is part of the path
    sym::assume(!path.contains('?'));
    resolve(base, dir, &cat(&[path, tail]))
}

// ------------------------------------------------------------------ C14
fn j(s: &str) -> String {
    cat(&["\"", s, "\""])
}
/// C14: entries for modules and files, in the importer's map
#[no_mangle]
pub extern "C" fn check_C14_map() {
    let keys = ["./a", "./a.js", "a.js", "m", "m/x", "@s/m", "./d/b.js", "./d", "./a.x.js"];
    let vals = ["false", "\"./c.js\"", "\"./d/c\"", "\"n\"", "\"@s/n\"", "\"./gone\"", "true", "1", "null"];
    let ei = sym::choose("exts", 3);
    let list: &[&str] = [&[".js"][..], &[".x.js"], &[".x.js", ".js"]][ei];
    let k = if ei == 0 { sym::choose("key", keys.len() - 1) } else { [0, 1, 2, 8][sym::choose("key", 4)] };
    let v = if ei == 0 { sym::choose("val", vals.len()) } else { sym::choose("val", 2) };
    let second = ei == 0 && sym::flag("second");
    let mut js = cat(&["{\"name\":\"w\",\"browser\":{", &j(keys[k]), ":", vals[v]]);
    if second {
        js.push_str(",\"./zz.js\":false,\"mm\":\"./c.js\"");
    }
    js.push_str("}}");
    vfs::file("w/package.json", &js);
    // an outer map that never applies inside w
    vfs::file("package.json", "{\"browser\":{\"m\":\"./c.js\",\"./w/a.js\":\"./c.js\",\"n\":false}}");
    vfs::file("c.js", "");
    for f in ["w/c.js", "w/d/c.js", "w/d/b.js", "w/d/index.js"] {
        vfs::file(f, "");
    }
    let a = sym::flag("a.js");
    if a {
        vfs::file("w/a.js", "");
        vfs::file("w/a.x.js", "");
    }
    // the modules: beside the importer or hoisted, with or without a description of their own
    let at = ["node_modules", "w/node_modules"][if ei == 0 { sym::choose("at", 2) } else { 0 }];
    let desc = ei == 0 && sym::flag("desc");
    for m in ["m", "n", "@s/m", "@s/n"] {
        vfs::file(&join(at, &cat(&[m, "/index.js"])), "");
        vfs::file(&join(at, &cat(&[m, "/x.js"])), "");
        if desc {
            vfs::file(&join(at, &cat(&[m, "/package.json"])), &cat(&["{\"name\":\"", m, "\"}"]));
        }
    }
    vfs::commit();
    let on = sym::flag("browser");
    let reqs: [(&str, &str); 16] = [
        ("", "./a"),
        ("", "./a.js"),
        ("", "./d/../a.js"),
        ("", "./d/b"),
        ("", "./d"),
        ("d", "../a"),
        ("d", "./b.js"),
        ("", "m"),
        ("d", "m"),
        ("", "m/x"),
        ("", "@s/m"),
        ("", "n"),
        ("d", ".."),
        ("", "a.js"),
        ("", "mm"),
        ("", "./m"),
    ];
    let (from, req) = reqs[sym::choose("req", reqs.len())];
    let dir = if from.is_empty() { vfs::abs("w") } else { join(&vfs::abs("w"), from) };
    let exts = sv(list);
    let r = Resolver::new(ResolverOptions { browser_field: on, ..opts(&exts) });
    let plain = Resolver::new(opts(&exts));
    let o = resolve(&r, &dir, req);
    note_s("map", &js);
    note_out("out", &o);
    // what the request names
    let module = req.as_bytes()[0] != b'.';
    let hit = |key: &str| -> bool {
        if module {
            return key == req;
        }
        // an entry written without "./" stands for the file of that name too
        let p = String::from_utf8(super::file::lexical(cat(&[&dir, "/", req]).as_bytes())).unwrap();
        let kp = String::from_utf8(super::file::lexical(cat(&[&vfs::abs("w"), "/", key]).as_bytes())).unwrap();
        p == kp || exts.iter().any(|e| cat(&[&p, e]) == kp)
    };
    let mut exp: Option<&str> = None; // the value text
    if on {
        if hit(keys[k]) && v < 6 {
            exp = Some(vals[v]);
        } else if second && hit("mm") {
            exp = Some("\"./c.js\"");
        }
    }
    match exp {
        Some("false") => {
            sym::cover("ignored");
            sym::check(o == Out::Ignored, "an entry that is false must be ignored")
        }
        Some(t) => {
            sym::cover("replaced");
            let w = resolve(&plain, &vfs::abs("w"), &sub(t, 1, t.len() - 1));
            if is_err(&w) {
                sym::check(is_err(&o), "the replacement does not exist");
            } else {
                sym::check(o == w, "the request was not replaced by its entry");
            }
        }
        None => {
            let w = resolve(&plain, &dir, req);
            if is_err(&w) {
                sym::check(is_err(&o), "an unlisted request is affected");
            } else {
                sym::check(o == w, "an unlisted request is affected");
            }
        }
    }
}
/// C14: entries that lead to entries
#[no_mangle]
pub extern "C" fn check_C14_chain() {
    let names = ["./a", "./b", "m", "n"];
    let n = names.len();
    let mut js = String::from("{\"browser\":{");
    let rev = sym::flag("reverse");
    let mut val = vec![0usize; n]; // 0: no entry, 1: false, 2+i: names[i]
    for i in 0..n {
        val[i] = sym::choose("val", n + 2);
    }
    let mut first = true;
    for x in 0..n {
        let i = if rev { n - 1 - x } else { x };
        if val[i] == 0 {
            continue;
        }
        if !first {
            js.push(',');
        }
        first = false;
        js.push_str(&j(names[i]));
        js.push(':');
        js.push_str(&if val[i] == 1 { "false".to_string() } else { j(names[val[i] - 2]) });
    }
    js.push_str("}}");
    vfs::file("package.json", &js);
    for f in ["a", "b", "node_modules/m/index.js", "node_modules/n/index.js"] {
        vfs::file(f, "");
    }
    vfs::commit();
    let q = sym::choose("req", n);
    // follow; configurations that lead back are C23
    let mut cur = q;
    let mut ignored = false;
    let mut steps = 0;
    while val[cur] != 0 {
        if val[cur] == 1 {
            ignored = true;
            break;
        }
        cur = val[cur] - 2;
        steps += 1;
        sym::assume(steps <= n);
    }
    let exts = sv(&[".js"]);
    let r = Resolver::new(ResolverOptions { browser_field: true, ..opts(&exts) });
    let o = resolve(&r, &vfs::abs(""), names[q]);
    note_s("map", &js);
    note_out("out", &o);
    if ignored {
        sym::check(o == Out::Ignored, "the chain ends in false");
    } else {
        let p = vfs::abs(["a", "b", "node_modules/m/index.js", "node_modules/n/index.js"][cur]);
        sym::check(is_file_at(&o, &p), "the chain was not followed to its end");
    }
}
/// C14: the map of a package applies to its own main field, main file and subpaths
#[no_mangle]
pub extern "C" fn check_C14_package() {
    let keys = ["./m.js", "./m", "./index.js", "./lib/x.js", "./e.js"];
    let k = sym::choose("key", keys.len());
    let v = sym::choose("val", 2);
    let main = sym::choose("main", 4);
    let exp = sym::flag("exports");
    let mut js = cat(&["{\"browser\":{", &j(keys[k]), ":", ["false", "\"./r.js\""][v], "}"]);
    if main > 0 {
        js.push_str(&cat(&[",\"main\":", ["\"./m.js\"", "\"m\"", "\"./lib\""][main - 1]]));
    }
    if exp {
        js.push_str(",\"exports\":{\".\":\"./e.js\",\"./lib/x\":\"./lib/x.js\"}");
    }
    js.push('}');
    vfs::file("node_modules/p/package.json", &js);
    for f in ["m.js", "index.js", "lib/x.js", "lib/index.js", "e.js", "r.js"] {
        vfs::file(&join("node_modules/p", f), "");
    }
    vfs::commit();
    let on = sym::flag("browser");
    let exts = sv(&[".js"]);
    let r = Resolver::new(ResolverOptions { browser_field: on, ..opts(&exts) });
    let req = ["p", "p/lib/x", "p/m.js"][sym::choose("req", 3)];
    let o = resolve(&r, &vfs::abs(""), req);
    note_s("map", &js);
    note_out("out", &o);
    // the file without a map
    let f = match (req, exp) {
        ("p", true) => "e.js",
        ("p", false) => ["index.js", "m.js", "m.js", "lib/index.js"][main],
        ("p/lib/x", _) => "lib/x.js",
        (_, true) => "",
        _ => "m.js",
    };
    if f.is_empty() {
        sym::check(is_err(&o), "an unlisted subpath resolved");
        return;
    }
    // is it named by the entry, as written or with the extension
    let named = match keys[k] {
        "./m" => f == "m.js" && main == 2 && req == "p" && !exp,
        "./index.js" => f == "index.js",
        x => &x[2..] == f,
    };
    if on && named && v == 0 {
        sym::check(o == Out::Ignored, "the entry point is mapped to false");
    } else if on && named {
        sym::check(is_file_at(&o, &vfs::abs("node_modules/p/r.js")), "the entry point is mapped to another file");
    } else {
        sym::check(is_file_at(&o, &vfs::abs(&join("node_modules/p", f))), "the map affects another file");
    }
}
