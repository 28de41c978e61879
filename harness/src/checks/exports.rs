//! Exports and imports maps: C08 - C12, C31
use super::refr::*;
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("check_C08_caps", check_C08_caps),
    ("check_C08_main", check_C08_main),
    ("check_C09_exports", check_C09_exports),
    ("check_C09_imports", check_C09_imports),
    ("check_C10_order", check_C10_order),
    ("check_C10_deep", check_C10_deep),
    ("check_C11_exports", check_C11_exports),
    ("check_C11_imports", check_C11_imports),
    ("check_C12_listed", check_C12_listed),
    ("check_C31_names", check_C31_names),
    ("check_C31_self", check_C31_self),
    ("check_C31_any", check_C31_any),
    ("check_C08_list", check_C08_list),
];
const AF: [u8; 2] = [vfs::ABSENT, vfs::FILE];

fn conds(v: &[&str]) -> std::collections::HashSet<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// C08: what the map lists, and nothing else
#[no_mangle]
pub extern "C" fn check_C08_caps() {
    // shape of the exports value
    let shapes = [
        "\"./m.js\"",
        "{\".\":\"./m.js\"}",
        "{\".\":\"./m.js\",\"./a\":\"./a.js\"}",
        "{\"./a\":[\"./gone.js\",\"./a.js\"]}",
        "{\"./lib/\":\"./lib/\"}",
        "{\"./lib/*\":\"./lib/*.js\"}",
        "{\"node\":\"./m.js\",\"default\":\"./a.js\"}",
        "{\".\":{\"x\":\"./a.js\"},\"./a\":{\"node\":\"./a.js\"}}",
        "[\"./gone.js\",\"./m.js\"]",
        "{}",
        "[]",
        "{\"./a\":{}}",
        "{\"./v/b\":\"./a.js\"}",
        "{\"./v/*\":\"./lib/*\"}",
        "{\"./v/w/\":\"./lib/\",\"./v/w/m\":\"./m.js\"}",
        "{\"./a.js/b/c\":\"./a.js\",\"./lib/x\":null}",
    ];
    let s = sym::choose("shape", shapes.len());
    let node = sym::flag("node");
    let at = ["node_modules/p", "node_modules/@s/p"][sym::choose("at", 2)];
    let name = sub(at, 13, at.len());
    // with its own name, without a name or with that of another package
    let own = sym::choose("own", 3);
    let own = match own {
        0 => cat(&["\"name\":\"", &name, "\","]),
        1 => String::new(),
        _ => "\"name\":\"zz\",".to_string(),
    };
    vfs::file(&join(at, "package.json"), &cat(&["{", &own, "\"main\":\"./m.js\",\"exports\":", shapes[s], "}"]));
    for f in ["m.js", "a.js", "a", "lib/x", "lib/x.js", "index.js"] {
        vfs::maybe(&join(at, f), &AF, "");
    }
    let lower = sym::flag("other"); // the same package once more, further up
    if lower {
        vfs::file(&join("a", &join(at, "other.js")), "");
    }
    vfs::dir("a/b");
    vfs::commit();
    let exts = sv(&[".js"]);
    let r = Resolver::new(ResolverOptions { condition_names: conds(if node { &["node"] } else { &[] }), ..opts(&exts) });
    let subs = ["", "/a", "/a.js", "/lib/x", "/lib/x.js", "/m.js", "/package.json", "/lib", "/v/b", "/v/x", "/v/w/x", "/v/w/m", "/v/w/x.js", "/a.js/b/c", "/b"];
    let k = sym::choose("sub", subs.len());
    // issued from outside the package
    let o = resolve(&r, &vfs::abs(if lower { "" } else { "a/b" }), &cat(&[&name, subs[k]]));
    note_out("out", &o);
    let q = subs[k];
    let list: &[&str] = match s {
        0 | 1 | 2 if q == "" => &["m.js"],
        2 if q == "/a" => &["a.js"],
        3 if q == "/a" => &["gone.js", "a.js"],
        4 if q == "/lib/x" => &["lib/x"],
        4 if q == "/lib/x.js" => &["lib/x.js"],
        5 if q == "/lib/x" => &["lib/x.js"],
        5 if q == "/lib/x.js" => &["lib/x.js.js"],
        6 if q == "" => {
            if node {
                &["m.js"]
            } else {
                &["a.js"]
            }
        }
        7 if q == "/a" && node => &["a.js"],
        8 if q == "" => &["gone.js", "m.js"],
        12 if q == "/v/b" => &["a.js"],
        13 if q == "/v/x" => &["lib/x"],
        13 if q == "/v/b" => &["lib/b"],
        14 if q == "/v/w/x" => &["lib/x"],
        14 if q == "/v/w/x.js" => &["lib/x.js"],
        14 if q == "/v/w/m" => &["m.js"],
        15 if q == "/a.js/b/c" => &["a.js"],
        _ => &[],
    };
    let mut exp = None;
    for f in list {
        let p = vfs::abs(&join(at, f));
        if vfs::is_file(&p) {
            exp = Some(p);
            break;
        }
    }
    if list.is_empty() {
        sym::cover("not listed");
    }
    expect(&o, &exp, false, "the exports map does not assign that answer");
}

/// C08: the map wins over main, main files, extensions and enforced extension settings of the resolver
#[no_mangle]
pub extern "C" fn check_C08_main() {
    let at = "node_modules/p";
    let ex = ["{\".\":\"./e\"}", "{\"./x\":\"./e\"}", "\"./e\""];
    let i = sym::choose("exports", 3);
    vfs::file("node_modules/p/package.json", &cat(&["{\"main\":\"./main\",\"browser\":{\"./e\":\"./b\"},\"exports\":", ex[i], "}"]));
    for f in ["main", "e", "e.js", "x", "x.js", "index.js", "b", "index"] {
        vfs::maybe(&join(at, f), &AF, "");
    }
    vfs::maybe("node_modules/p.js", &AF, "");
    vfs::commit();
    let exts = sv(&[".js"]);
    let r = Resolver::new(ResolverOptions { main_files: sv(&["index", "x"]), ..opts(&exts) });
    let req = ["p", "p/x", "p/e", "p/main"][sym::choose("req", 4)];
    let o = resolve(&r, &vfs::abs(""), req);
    note_out("out", &o);
    let e = vfs::abs("node_modules/p/e");
    let listed = (i != 1 && req == "p") || (i == 1 && req == "p/x");
    let exp = if listed && vfs::is_file(&e) { Some(e) } else { None };
    expect(&o, &exp, false, "a package with an exports map answered past it");
}

/// keys of a map over the subpath alphabet: (key without "./" or "#", target prefix, kind 0 exact 1 folder 2 wildcard)
const KEYS: [(&str, u8); 9] = [("a", 0), ("a/b", 0), ("a/", 1), ("*", 2), ("a*", 2), ("a/b*", 2), ("a/b/", 1), ("b/*", 2), ("\u{e9}*", 2)];

fn best(present: &[bool], s: &[u8]) -> Option<usize> {
    let mut r: Option<(usize, usize)> = None; // (key, prefix length)
    for (i, (k, kind)) in KEYS.iter().enumerate() {
        if !present[i] {
            continue;
        }
        let kb = k.as_bytes();
        if *kind == 0 {
            if s == kb {
                return Some(i);
            }
        } else {
            let n = if *kind == 2 { kb.len() - 1 } else { kb.len() };
            if s.len() >= n && &s[..n] == &kb[..n] && r.map_or(true, |x| x.1 < n) {
                r = Some((i, n));
            }
        }
    }
    r.map(|x| x.0)
}
fn rest(i: usize, s: &[u8]) -> Vec<u8> {
    let (k, kind) = KEYS[i];
    let n = match kind {
        0 => s.len(),
        1 => k.len(),
        _ => k.len() - 1,
    };
    s[n..].to_vec()
}
fn target_path(i: usize, r: &[u8]) -> String {
    // the file a matching key names: o<i>[/rest]
    let mut t = String::from("o");
    t.push((b'0' + i as u8) as char);
    if KEYS[i].1 == 0 {
        t.push('*');
    } else {
        t.push_str("/x");
        t.push_str(unsafe { std::str::from_utf8_unchecked(r) });
        if KEYS[i].1 == 2 {
            t.push_str(".y");
        }
    }
    t
}
fn key_setup(base: &str, lead: &str) -> (String, Vec<bool>, Vec<u8>) {
    let mut present = vec![];
    for _ in 0..KEYS.len() {
        present.push(sym::flag("key"));
    }
    sym::assume(present.iter().filter(|x| **x).count() <= sym::param("keys", 2) as usize);
    // subpath: tokens over a, b, "/", "$", "*" and a two-byte character
    let n = sym::fix(sym::range("len", 1, sym::param("n", 3) as u8) as usize);
    let mut s: Vec<u8> = vec![];
    for i in 0..n {
        let last = if s.is_empty() { b'/' } else { s[s.len() - 1] };
        match sym::choose("tok", 2) {
            0 => {
                let c = sym::one_of("c", b"ab/$*");
                // no empty segment, no trailing slash
                sym::assume(!(c == b'/' && (last == b'/' || i + 1 == n)));
                s.push(c);
            }
            _ => {
                s.push(0xc3);
                s.push(sym::range("u", 0xa0, 0xbf));
            }
        }
    }
    // a wildcard standing for nothing is left open by the property
    for (i, (k, kind)) in KEYS.iter().enumerate() {
        if *kind == 2 && present[i] {
            sym::assume(&s[..] != &k.as_bytes()[..k.len() - 1]);
        }
    }
    let rev = sym::flag("reverse");
    let mut js = String::from("{");
    for j in 0..KEYS.len() {
        let i = if rev { KEYS.len() - 1 - j } else { j };
        if !present[i] {
            continue;
        }
        if js.len() > 1 {
            js.push(',');
        }
        js.push('"');
        js.push_str(lead);
        js.push_str(KEYS[i].0);
        js.push_str("\":\"./o");
        js.push((b'0' + i as u8) as char);
        match KEYS[i].1 {
            0 => js.push('*'),
            1 => js.push_str("/xq/"),
            _ => js.push_str("/x*.y"),
        }
        js.push('"');
    }
    js.push('}');
    // every key that matches has its target
    for i in 0..KEYS.len() {
        let mut one = vec![false; KEYS.len()];
        one[i] = true;
        if present[i] && best(&one, &s).is_some() {
            let r = rest(i, &s);
            let t = match KEYS[i].1 {
                1 => cat(&["o", &((b'0' + i as u8) as char).to_string(), "/xq/", unsafe { std::str::from_utf8_unchecked(&r) }]),
                _ => target_path(i, &r),
            };
            vfs::file(&join(base, &t), "");
        }
    }
    (js, present, s)
}
fn expected(base: &str, present: &[bool], s: &[u8]) -> Option<String> {
    best(present, s).map(|i| {
        let r = rest(i, s);
        let t = match KEYS[i].1 {
            1 => cat(&["o", &((b'0' + i as u8) as char).to_string(), "/xq/", unsafe { std::str::from_utf8_unchecked(&r) }]),
            _ => target_path(i, &r),
        };
        vfs::abs(&join(base, &t))
    })
}

/// C09: symbolic subpath against eight keys
#[no_mangle]
pub extern "C" fn check_C09_exports() {
    let base = "node_modules/p";
    let (js, present, s) = key_setup(base, "./");
    sym::assume(js.len() > 2);
    vfs::file("node_modules/p/package.json", &cat(&["{\"exports\":", &js, "}"]));
    vfs::commit();
    let none: Vec<String> = vec![];
    let r = Resolver::new(opts(&none));
    let req = cat(&["p/", unsafe { std::str::from_utf8_unchecked(&s) }]);
    note_s("req", &req);
    note_s("map", &js);
    let o = resolve(&r, &vfs::abs(""), &req);
    note_out("out", &o);
    expect(&o, &expected(base, &present, &s), false, "not the most specific key, or not the text it stands for");
}

/// C09: the same for imports
#[no_mangle]
pub extern "C" fn check_C09_imports() {
    let base = "d";
    let (js, present, s) = key_setup(base, "#");
    sym::assume(js.len() > 2);
    sym::assume(s[0] != b'/');
    vfs::file("d/package.json", &cat(&["{\"imports\":", &js, "}"]));
    vfs::commit();
    let none: Vec<String> = vec![];
    let r = Resolver::new(opts(&none));
    let req = cat(&["#", unsafe { std::str::from_utf8_unchecked(&s) }]);
    note_s("req", &req);
    note_s("map", &js);
    let o = resolve(&r, &vfs::abs("d"), &req);
    note_out("out", &o);
    expect(&o, &expected(base, &present, &s), false, "not the most specific key, or not the text it stands for");
}

/// a conditional target: text and, under the active conditions, the answer
fn cond_tree(depth: usize, next: &mut u8, active: &[bool; 2]) -> (String, Option<u8>) {
    // ordered selection of keys; "default" only last
    let all = ["a", "b", "default", "zz"];
    let n = 1 + sym::choose("nkeys", 3);
    let mut used = 0u32;
    let mut js = String::from("{");
    let mut ans: Option<u8> = None;
    let mut nested = false; // one nested object per level
    for k in 0..n {
        let i = sym::choose("cond", 4);
        sym::assume(used >> i & 1 == 0 && (i != 2 || k == n - 1));
        used |= 1 << i;
        if k > 0 {
            js.push(',');
        }
        js.push('"');
        js.push_str(all[i]);
        js.push_str("\":");
        let on = i == 2 || (i < 2 && active[i]);
        if depth > 0 && !nested && sym::flag("nest") {
            nested = true;
            let (t, a) = cond_tree(depth - 1, next, active);
            js.push_str(&t);
            if on && ans.is_none() {
                ans = a;
            }
        } else {
            let c = *next;
            *next += 1;
            js.push_str("\"./t");
            js.push((b'a' + c) as char);
            js.push('"');
            if on && ans.is_none() {
                ans = Some(c);
            }
        }
    }
    js.push('}');
    (js, ans)
}
/// C10
#[no_mangle]
pub extern "C" fn check_C10_order() {
    let active = [sym::flag("a"), sym::flag("b")];
    let mut next = 0u8;
    let (js, ans) = cond_tree(sym::param("depth", 1) as usize, &mut next, &active);
    let form = sym::choose("form", 4);
    // the request and the place differ, the conditional target is the same
    let (base, req, doc) = match form {
        0 => ("node_modules/p", "p", cat(&["{\"exports\":", &js, "}"])),
        1 => ("node_modules/p", "p/s", cat(&["{\"exports\":{\"./s\":", &js, "}}"])),
        2 => ("node_modules/p", "p", cat(&["{\"exports\":{\".\":[", &js, "]}}"])),
        _ => ("", "#s", cat(&["{\"imports\":{\"#s\":", &js, "}}"])),
    };
    let pj = if base.is_empty() { "package.json".to_string() } else { join(base, "package.json") };
    vfs::file(&pj, &doc);
    for c in 0..next {
        let mut t = String::from("t");
        t.push((b'a' + c) as char);
        vfs::file(&(if base.is_empty() { t } else { join(base, &t) }), "");
    }
    vfs::commit();
    let mut cn = std::collections::HashSet::new();
    if active[0] {
        cn.insert("a".to_string());
    }
    if active[1] {
        cn.insert("b".to_string());
    }
    let none: Vec<String> = vec![];
    let r = Resolver::new(ResolverOptions { condition_names: cn, ..opts(&none) });
    let o = resolve(&r, &vfs::abs(""), req);
    note_s("map", &doc);
    note_out("out", &o);
    let exp = ans.map(|c| {
        let mut t = String::from("t");
        t.push((b'a' + c) as char);
        vfs::abs(&(if base.is_empty() { t } else { join(base, &t) }))
    });
    expect(&o, &exp, false, "not the target of the first condition that applies");
}

const NOTHING: u8 = 255;
/// nested deeper: two keys per level, one of them nested
fn chain_tree(depth: usize, next: &mut u8, special: &mut usize) -> (String, Option<u8>) {
    let first = ["a", "zz"][sym::choose("first", 2)];
    let second = ["b", "default", "yy", ""][sym::choose("second", 4)];
    let nest = sym::choose("nest", 2);
    sym::assume(nest == 0 || !second.is_empty());
    let mut js = String::from("{");
    let mut ans: Option<u8> = None;
    for k in 0..2 {
        let key = [first, second][k];
        if key.is_empty() {
            continue;
        }
        if k > 0 {
            js.push(',');
        }
        js.push_str(&cat(&["\"", key, "\":"]));
        let on = key == "a" || key == "b" || key == "default";
        if depth > 0 && nest == k {
            let (t, a) = chain_tree(depth - 1, next, special);
            js.push_str(&t);
            if on && ans.is_none() {
                ans = a;
            }
        } else if *special > 0 && sym::flag("special") {
            // no target at all: an empty object is passed over, null decides
            js.push_str(["", "{}", "null", "{\"zz\":\"./ta\"}", "[]"][*special]);
            if on && ans.is_none() && *special % 2 == 0 {
                ans = Some(NOTHING);
            }
            *special = 0;
        } else {
            let c = *next;
            *next += 1;
            js.push_str("\"./t");
            js.push((b'a' + c) as char);
            js.push('"');
            if on && ans.is_none() {
                ans = Some(c);
            }
        }
    }
    js.push('}');
    (js, ans)
}
/// C10: deep nesting
#[no_mangle]
pub extern "C" fn check_C10_deep() {
    let mut next = 0u8;
    let mut special = sym::choose("value", sym::param("values", 3) as usize);
    let (js, ans) = chain_tree(sym::param("depth", 2) as usize, &mut next, &mut special);
    // every tree once
    sym::assume(special == 0);
    let form = sym::choose("form", 2);
    let (base, req, doc) = match form {
        0 => ("node_modules/p", "p/s", cat(&["{\"exports\":{\"./s\":", &js, "}}"])),
        _ => ("d", "#s", cat(&["{\"imports\":{\"#s\":", &js, "}}"])),
    };
    vfs::file(&join(base, "package.json"), &doc);
    for c in 0..next {
        vfs::file(&join(base, &cat(&["t", &((b'a' + c) as char).to_string()])), "");
    }
    vfs::commit();
    let none: Vec<String> = vec![];
    let r = Resolver::new(ResolverOptions { condition_names: conds(&["a", "b"]), ..opts(&none) });
    let o = resolve(&r, &vfs::abs(if form == 0 { "" } else { "d" }), req);
    note_s("map", &doc);
    note_out("out", &o);
    let exp = ans.filter(|c| *c != NOTHING).map(|c| vfs::abs(&join(base, &cat(&["t", &((b'a' + c) as char).to_string()]))));
    expect(&o, &exp, false, "not the target of the first condition that applies");
}

fn inside(o: &Out, pkg: &str, what: &str) {
    if let Out::File { path, .. } = o {
        sym::cover("found");
        sym::check(path.starts_with(&cat(&[&vfs::abs(pkg), "/"])), what);
    }
}
/// C11: a symbolic target (and subpath) of an exports map
#[no_mangle]
pub extern "C" fn check_C11_exports() {
    let n = sym::param("n", 5) as usize;
    let form = sym::choose("form", 3);
    let t = sym::string("t", 0, n, b"./a");
    let mut req = String::from("p");
    let doc = match form {
        0 => cat(&["{\"exports\":\"./", &t, "\"}"]),
        1 => {
            req.push('/');
            req.push_str(&sym::string("s", 1, sym::param("m", 4) as usize, b"./a"));
            cat(&["{\"exports\":{\"./\":\"./", &t, "/\"}}"])
        }
        _ => {
            req.push('/');
            req.push_str(&sym::string("s", 1, sym::param("m", 4) as usize, b"./a"));
            cat(&["{\"exports\":{\"./*\":\"./", &t, "*\"}}"])
        }
    };
    let pkg = "w/node_modules/p";
    vfs::file(&join(pkg, "package.json"), &doc);
    for d in ["w/node_modules/p", "w/node_modules/p/a"] {
        for f in ["a", "aa", ".a", "..a"] {
            if !(d == "w/node_modules/p" && f == "a") {
                vfs::file(&join(d, f), "");
            }
        }
    }
    for d in ["w/node_modules", "w", ""] {
        for f in ["a", "aa", ".a", "..a"] {
            vfs::file(&(if d.is_empty() { f.to_string() } else { join(d, f) }), "");
        }
    }
    vfs::commit();
    let none: Vec<String> = vec![];
    let r = Resolver::new(ResolverOptions { symlinks: false, ..opts(&none) });
    let o = resolve(&r, &vfs::abs("w"), &req);
    note_s("map", &doc);
    note_s("req", &req);
    note_out("out", &o);
    inside(&o, pkg, "an exports target left the package");
    // a target that stays inside by every count is not refused
    if form == 0 {
        let p = cat(&[&vfs::abs(pkg), "/", &t]);
        let mut depth = 0i32;
        let mut low = 0i32;
        let mut s = 0;
        let b = t.as_bytes();
        for i in 0..=b.len() {
            if i == b.len() || b[i] == b'/' {
                let c = &b[s..i];
                if c == b".." {
                    depth -= 1;
                } else if !(c == b"." || c.is_empty()) {
                    depth += 1;
                }
                low = low.min(depth);
                s = i + 1;
            }
        }
        if low >= 0 && vfs::is_file(&p) {
            sym::check(matches!(o, Out::File { .. }), "an exports target inside the package was refused");
        }
    }
}
/// C11: relative targets of an imports map
#[no_mangle]
pub extern "C" fn check_C11_imports() {
    let n = sym::param("n", 5) as usize;
    let form = sym::choose("form", 2);
    let t = sym::string("t", 0, n, b"./a");
    let lead = ["./", "../", "./a/../"][sym::choose("lead", 3)];
    let mut req = String::from("#k");
    let doc = match form {
        0 => cat(&["{\"imports\":{\"#k\":\"", lead, &t, "\"}}"]),
        _ => {
            req.push('/');
            req.push_str(&sym::string("s", 1, sym::param("m", 4) as usize, b"./a"));
            cat(&["{\"imports\":{\"#k/\":\"", lead, &t, "/\"}}"])
        }
    };
    let pkg = "w/u/p";
    vfs::file(&join(pkg, "package.json"), &doc);
    for d in ["w/u/p", "w/u/p/a"] {
        for f in ["a", "aa", ".a", "..a"] {
            if !(d == "w/u/p" && f == "a") {
                vfs::file(&join(d, f), "");
            }
        }
    }
    for d in ["w/u", "w", ""] {
        for f in ["a", "aa", ".a", "..a"] {
            vfs::file(&(if d.is_empty() { f.to_string() } else { join(d, f) }), "");
        }
    }
    vfs::commit();
    let none: Vec<String> = vec![];
    let r = Resolver::new(ResolverOptions { symlinks: false, ..opts(&none) });
    let o = resolve(&r, &vfs::abs(pkg), &req);
    note_s("map", &doc);
    note_s("req", &req);
    note_out("out", &o);
    inside(&o, pkg, "an imports target left the package");
}

/// C12: listed and unlisted keys, the nearest description, literal "#" files
#[no_mangle]
pub extern "C" fn check_C12_listed() {
    let maps = [
        "{}",
        "{\"imports\":{}}",
        "{\"imports\":{\"#a\":\"./t.js\"}}",
        "{\"imports\":{\"#a\":{\"node\":\"./t.js\",\"default\":\"./u.js\"}}}",
        "{\"imports\":{\"#a\":\"#b\",\"#b\":\"./u.js\"}}",
        "{\"imports\":{\"#a\":\"dep\"}}",
        "{\"imports\":{\"#a\":\"dep/x.js\"}}",
        "{\"imports\":{\"#b\":\"./t.js\"}}",
        "{\"imports\":{\"#a/\":\"./l/\"}}",
        // a directory, a name without its extension, a directory with description
        "{\"imports\":{\"#a\":\"./l\"}}",
        "{\"imports\":{\"#a\":\"./l/x\"}}",
        "{\"imports\":{\"#a\":\"./lp\"}}",
    ];
    let home = ["w", "node_modules/imp"][sym::choose("home", 2)];
    let m = sym::choose("map", maps.len());
    let pj = sym::flag("has_pkg");
    if pj {
        vfs::file(&join(home, "package.json"), maps[m]);
    } else {
        sym::assume(m == 0);
    }
    // an imports map further up never applies when there is a nearer description
    let outer = sym::flag("outer");
    if outer {
        vfs::file("package.json", "{\"imports\":{\"#a\":\"./outer.js\"}}");
    }
    vfs::file("outer.js", "");
    let node = sym::flag("node");
    for f in ["t.js", "u.js"] {
        vfs::maybe(&join(home, f), &AF, "");
    }
    vfs::file(&join(home, "l/x.js"), "");
    vfs::file(&join(home, "l/index.js"), "");
    vfs::file(&join(home, "lp/package.json"), "{\"main\":\"./m.js\"}");
    vfs::file(&join(home, "lp/m.js"), "");
    // literal files
    let lit = sym::flag("literal");
    if lit {
        vfs::file(&join(home, "s/#a"), "");
        vfs::file(&join(home, "#a"), "");
        vfs::file(&join(home, "#a.js"), "");
        vfs::file(&join(home, "node_modules/#a"), "");
        vfs::file("node_modules/#a.js", "");
    }
    let litdir = sym::flag("literal_dir");
    if litdir && !lit {
        vfs::file(&join(home, "s/#a/package.json"), "{\"imports\":{\"#a\":\"./in.js\"}}");
        vfs::file(&join(home, "s/#a/in.js"), "");
    }
    // the dependency: near the importer or hoisted, with or without description
    let depat = match sym::choose("dep", 3) {
        0 => "",
        1 => "near",
        _ => "hoisted",
    };
    let dd = if depat == "near" { join(home, "node_modules/dep") } else { "node_modules/dep".to_string() };
    let dform = sym::choose("dform", 3);
    let mut dep_main = None;
    let mut dep_x = None;
    if !depat.is_empty() {
        vfs::file(&join(&dd, "x.js"), "");
        vfs::file(&join(&dd, "m.js"), "");
        match dform {
            0 => {
                vfs::file(&join(&dd, "index.js"), "");
                dep_main = Some("index.js");
                dep_x = Some("x.js");
            }
            1 => {
                vfs::file(&join(&dd, "package.json"), "{\"main\":\"./m.js\"}");
                dep_main = Some("m.js");
                dep_x = Some("x.js");
            }
            _ => {
                vfs::file(&join(&dd, "package.json"), "{\"exports\":{\".\":\"./m.js\"}}");
                dep_main = Some("m.js");
            }
        }
    }
    vfs::dir(&join(home, "s"));
    vfs::commit();
    let exts = sv(&[".js"]);
    let r = Resolver::new(ResolverOptions { condition_names: conds(if node { &["node"] } else { &[] }), ..opts(&exts) });
    let req = ["#a", "#c", "#a/x.js", "#a/#b"][sym::choose("req", 4)];
    let o = resolve(&r, &vfs::abs(&join(home, "s")), req);
    note_out("out", &o);
    let h = |f: &str| {
        let p = vfs::abs(&join(home, f));
        if vfs::is_file(&p) {
            Some(p)
        } else {
            None
        }
    };
    let exp = if !pj {
        if outer && req == "#a" && home == "w" || outer && req == "#a" {
            Some(vfs::abs("outer.js"))
        } else {
            None
        }
    } else {
        match (m, req) {
            (2, "#a") => h("t.js"),
            (3, "#a") => {
                if node {
                    h("t.js")
                } else {
                    h("u.js")
                }
            }
            (4, "#a") => h("u.js"),
            (5, "#a") => dep_main.map(|f| vfs::abs(&join(&dd, f))),
            (6, "#a") => dep_x.map(|f| vfs::abs(&join(&dd, f))),
            (8, "#a/x.js") => h("l/x.js"),
            _ => None,
        }
    };
    expect(&o, &exp, false, "an internal request was not answered by the nearest imports map");
}

/// C31: the package named by the first segment(s), and no other
#[no_mangle]
pub extern "C" fn check_C31_names() {
    // the package the request is issued from
    let own = ["foo", "@s/foo", "f"][sym::choose("own", 3)];
    vfs::file("w/package.json", &cat(&["{\"name\":\"", own, "\",\"exports\":{\".\":\"./own.js\",\"./x\":\"./ownx.js\"}}"]));
    vfs::file("w/own.js", "");
    vfs::file("w/ownx.js", "");
    vfs::dir("w/node_modules");
    let names = ["foobar", "foo", "@s/foobar", "@s/foo", "fo", "foo.js", "@s"];
    for n in ["foobar", "foo", "@s/foobar", "@s/foo"] {
        let p = join("node_modules", n);
        let k = sym::choose("form", 3);
        if k == 1 {
            vfs::file(&join(&p, "package.json"), &cat(&["{\"name\":\"", n, "\",\"main\":\"./m.js\"}"]));
        } else if k == 2 {
            vfs::file(&join(&p, "package.json"), &cat(&["{\"name\":\"", n, "\",\"exports\":{\".\":\"./m.js\",\"./x\":\"./y.js\"}}"]));
        }
        if k > 0 {
            vfs::file(&join(&p, "m.js"), "");
            vfs::file(&join(&p, "x.js"), "");
            vfs::file(&join(&p, "y.js"), "");
        }
    }
    vfs::commit();
    let exts = sv(&[".js"]);
    let r = Resolver::new(opts(&exts));
    let n = names[sym::choose("name", names.len())];
    let x = sym::flag("sub");
    let req = if x { cat(&[n, "/x"]) } else { n.to_string() };
    let o = resolve(&r, &vfs::abs("w"), &req);
    note_out("out", &o);
    let exp = if n == own {
        sym::cover("self");
        Some(vfs::abs(if x { "w/ownx.js" } else { "w/own.js" }))
    } else {
        let p = vfs::abs(&join("node_modules", n));
        let f = |s: &str| {
            let q = join(&p, s);
            if vfs::is_file(&q) {
                Some(q)
            } else {
                None
            }
        };
        if n == "@s" || n == "fo" || n == "foo.js" {
            None
        } else if x {
            // y.js through the map, x.js without one
            let pj = f("package.json");
            match pj {
                None => None,
                Some(_) => {
                    if has_exports(&p) {
                        f("y.js")
                    } else {
                        f("x.js")
                    }
                }
            }
        } else {
            f("m.js")
        }
    };
    expect(&o, &exp, false, "another package captured the request");
}
fn has_exports(p: &str) -> bool {
    let t = vfs::content(&join(p, "package.json"));
    t.map_or(false, |t| t.windows(7).any(|w| w == b"exports"))
}

/// C31: self reference from every depth of the package
#[no_mangle]
pub extern "C" fn check_C31_self() {
    let own = ["foo", "@s/foo"][sym::choose("own", 2)];
    let root = ["w", "node_modules/foo"][sym::choose("root", 2)];
    vfs::file(&join(root, "package.json"), &cat(&["{\"name\":\"", own, "\",\"exports\":{\".\":\"./own.js\",\"./x\":\"./ownx.js\"}}"]));
    vfs::file(&join(root, "own.js"), "");
    vfs::file(&join(root, "ownx.js"), "");
    vfs::dir(&join(root, "lib/deep"));
    let nm = sym::flag("nm");
    if nm {
        vfs::dir(&join(root, "node_modules"));
    }
    vfs::commit();
    let exts = sv(&[".js"]);
    let r = Resolver::new(opts(&exts));
    let from = ["", "lib", "lib/deep"][sym::choose("from", 3)];
    let (req, f) = [("", "own.js"), ("/x", "ownx.js"), ("/y", "")][sym::choose("req", 3)];
    let dir = if from.is_empty() { root.to_string() } else { join(root, from) };
    let o = resolve(&r, &vfs::abs(&dir), &cat(&[own, req]));
    note_out("out", &o);
    let exp = if f.is_empty() { None } else { Some(vfs::abs(&join(root, f))) };
    expect(&o, &exp, false, "a package cannot be addressed by its own name from inside");
}

/// C31: any name of printable characters, as the package's own name and as a directory of node_modules
#[no_mangle]
pub extern "C" fn check_C31_any() {
    let part = |n: usize, first: bool| -> String {
        let mut v: Vec<u8> = vec![];
        for i in 0..n {
            let c = sym::range("c", 0x21, 0x7e);
            sym::assume(c != b'/' && c != b'"' && c != b'\\' && c != b'#' && c != b'?' && c != b'*');
            if i == 0 {
                sym::assume(c != b'.' && (!first || c != b'@'));
            } else {
                // not a drive
                sym::assume(c != b':');
            }
            v.push(c);
        }
        unsafe { String::from_utf8_unchecked(v) }
    };
    let n = sym::param("n", 2) as usize;
    let name = if sym::flag("scoped") { cat(&["@", &part(1, false), "/", &part(1, false)]) } else { part(n, true) };
    let form = sym::choose("form", 3);
    let (base, from) = if form == 0 { ("w".to_string(), "w/lib") } else { (join("w/node_modules", &name), "w") };
    let map = if form == 1 { "\"main\":\"./own\"" } else { "\"exports\":{\".\":\"./own.js\",\"./x\":\"./ownx.js\",\"./@x/y\":\"./at.js\"}" };
    vfs::file(&join(&base, "package.json"), &if form == 0 || sym::flag("named") { cat(&["{\"name\":\"", &name, "\",", map, "}"]) } else { cat(&["{", map, "}"]) });
    if form == 1 {
        vfs::file(&join(&base, "@x/y.js"), "");
    }
    for f in ["own.js", "ownx.js", "x.js", "at.js"] {
        vfs::file(&join(&base, f), "");
    }
    vfs::dir("w/lib");
    vfs::commit();
    let r = Resolver::new(opts(&sv(&[".js"])));
    let x = sym::choose("sub", 3);
    let req = cat(&[&name, ["", "/x", "/@x/y"][x]]);
    let o = resolve(&r, &vfs::abs(from), &req);
    note_kind("out", &o);
    let f = match (x, form) {
        (0, _) => "own.js",
        (1, 1) => "x.js",
        (1, _) => "ownx.js",
        (_, 1) => "@x/y.js",
        _ => "at.js",
    };
    expect(&o, &Some(vfs::abs(&join(&base, f))), false, "the package of that name does not answer");
}

/// C08: of several targets the first that is a file, whatever else has those names
#[no_mangle]
pub extern "C" fn check_C08_list() {
    let form = sym::choose("form", 7);
    let node = sym::flag("node");
    let (doc, list): (&str, &[usize]) = match form {
        0 => ("[\"./t0\",\"./t1\",\"./t2\",\"./t3\"]", &[0, 1, 2, 3]),
        1 => ("{\".\":[\"./t0\",\"./t1\",\"./t2\",\"./t0\",\"./t3\"]}", &[0, 1, 2, 3]),
        2 => ("{\"./s\":[\"./t3\",\"./t2\",\"./t1\",\"./t0\"]}", &[3, 2, 1, 0]),
        3 => ("{\"./*\":[\"./t0\",\"./t1\",\"./t2\",\"./t3\"]}", &[0, 1, 2, 3]),
        4 if node => ("[{\"node\":\"./t0\",\"default\":\"./t1\"},\"./t2\",{\"default\":\"./t3\"}]", &[0, 2, 3]),
        4 => ("[{\"node\":\"./t0\",\"default\":\"./t1\"},\"./t2\",{\"default\":\"./t3\"}]", &[1, 2, 3]),
        5 if node => ("{\"node\":[\"./t0\",\"./t1\",\"./t3\"],\"default\":[\"./t2\"]}", &[0, 1, 3]),
        5 => ("{\"node\":[\"./t0\",\"./t1\",\"./t3\"],\"default\":[\"./t2\"]}", &[2]),
        _ => ("{\".\":[null,\"./t2\",null,{\"zz\":\"./t1\"},\"./t0\"]}", &[2, 0]),
    };
    let at = "node_modules/p";
    vfs::file(&join(at, "package.json"), &cat(&["{\"main\":\"./t1\",\"exports\":", doc, "}"]));
    for t in ["t0", "t1", "t2", "t3"] {
        vfs::maybe(&join(at, t), &[vfs::ABSENT, vfs::FILE, vfs::DIR], "");
        vfs::maybe(&join(at, &cat(&[t, "/index.js"])), &AF, "");
        vfs::maybe(&join(at, &cat(&[t, ".js"])), &AF, "");
    }
    vfs::commit();
    let r = Resolver::new(ResolverOptions { condition_names: conds(if node { &["node"] } else { &[] }), ..opts(&sv(&[".js"])) });
    let o = resolve(&r, &vfs::abs(""), if form == 2 || form == 3 { "p/s" } else { "p" });
    note_out("out", &o);
    let mut exp = None;
    for i in list {
        let p = vfs::abs(&join(at, ["t0", "t1", "t2", "t3"][*i]));
        if vfs::is_file(&p) {
            exp = Some(p);
            break;
        }
    }
    expect(&o, &exp, false, "not the first target of the list that is a file");
}
