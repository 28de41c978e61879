//! tsconfig: C26, C27
use super::refr::*;
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("check_C26_key", check_C26_key),
    ("check_C26_two", check_C26_two),
    ("check_C26_mix", check_C26_mix),
    ("check_C27_chain", check_C27_chain),
    ("check_C27_forms", check_C27_forms),
    ("check_C27_shapes", check_C27_shapes),
    ("check_C27_bytes", check_C27_bytes),
];
const AF: [u8; 2] = [vfs::ABSENT, vfs::FILE];

/// "." and ".." taken away from an absolute path
pub fn lexical(p: &str) -> String {
    let b = p.as_bytes();
    let mut segs: Vec<(usize, usize)> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'/' {
            i += 1;
            continue;
        }
        let s = i;
        while i < b.len() && b[i] != b'/' {
            i += 1;
        }
        let seg = &b[s..i];
        if seg == b"." {
        } else if seg == b".." {
            segs.pop();
        } else {
            segs.push((s, i));
        }
    }
    let mut v = vec![];
    for (s, e) in segs {
        v.push(b'/');
        v.extend_from_slice(&b[s..e]);
    }
    if v.is_empty() {
        v.push(b'/');
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// the text the star of the key stands for, or "" for an equal key
fn star(key: &str, req: &str) -> Option<String> {
    let (k, r) = (key.as_bytes(), req.as_bytes());
    let mut at = k.len();
    let mut i = 0;
    while i < k.len() {
        if k[i] == b'*' {
            at = i;
            break;
        }
        i += 1;
    }
    if at == k.len() {
        return if k == r { Some(String::new()) } else { None };
    }
    let suffix = k.len() - at - 1;
    if r.len() < at + suffix || r[..at] != k[..at] || r[r.len() - suffix..] != k[at + 1..] {
        return if k == r { Some(String::new()) } else { None };
    }
    Some(sub(req, at, r.len() - suffix))
}
fn subst(t: &str, s: &str) -> String {
    let mut v = vec![];
    for c in t.as_bytes() {
        if *c == b'*' {
            v.extend_from_slice(s.as_bytes());
        } else {
            v.push(*c);
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// a target below the base directory, an absolute one as it is
fn under(base: &str, t: &str) -> String {
    lexical(&if t.starts_with('/') { t.to_string() } else { join(base, t) })
}
/// the same with the text for the star
fn mapped(base: &str, t: &str, s: &str) -> String {
    lexical(&if t.starts_with('/') { subst(t, s) } else { join(base, &subst(t, s)) })
}
fn world26(few: bool) {
    for f in ["w/a.js", "w/x/b/index.js", "w/x/ab", "w/x/.js", "w/b", "w/a/a", "w/ab/ab.js"] {
        vfs::file(f, "");
    }
    if few {
        vfs::file("w/ba.js", "");
        vfs::file("w/x/a", "");
    } else {
        vfs::maybe("w/ba.js", &AF, "");
        vfs::maybe("w/x/a", &AF, "");
    }
    vfs::maybe("node_modules/a/index.js", &AF, "");
    vfs::file("node_modules/ab/b.js", "");
    vfs::file("bb.js", "");
}
fn bases(i: usize) -> (Option<&'static str>, String) {
    match i {
        0 => (Some("."), vfs::abs("w")),
        1 => (Some("./x"), vfs::abs("w/x")),
        2 => (Some(".."), vfs::abs("")),
        3 => (Some("ABS"), vfs::abs("w/x")),
        _ => (None, String::new()),
    }
}
fn base_json(b: &Option<&str>) -> String {
    match b {
        Some("ABS") => cat(&["\"baseUrl\":\"", &vfs::abs("w/x"), "\","]),
        Some(b) => cat(&["\"baseUrl\":\"", b, "\","]),
        None => String::new(),
    }
}
fn list_json(t: &[String]) -> String {
    let mut s = String::from("[");
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push('"');
        s.push_str(x);
        s.push('"');
    }
    s.push(']');
    s
}
fn targets(i: usize) -> Vec<String> {
    let t: &[&str] = [
        &["*"][..], &["./x/*"], &["gone/*", "../w/*"], &["a"], &[], &["./x/../*", "x/*b"], &["ABS/*a"], &["./*/*"], &["x/b", "*"],
    ][i];
    t.iter().map(|x| if let Some(r) = x.strip_prefix("ABS") { cat(&[&vfs::abs("w"), r]) } else { x.to_string() }).collect()
}
const TARGETS: usize = 9;
/// a request that ends in a directory separator asks for a directory: not decided here
fn plain_end(r: &str) -> bool {
    !(r.ends_with('/') || r.ends_with("/.") || r.ends_with("/..") || r == "." || r == ".." || r.is_empty())
}
fn resolver26(ts: bool, prefer: bool) -> Resolver {
    Resolver::new(ResolverOptions { prefer_relative: prefer, tsconfig: if ts { Some(vfs::abs("w/tsconfig.json").into()) } else { None }, ..opts(&sv(&[".js"])) })
}
/// C26: one key of any text, any request
#[no_mangle]
pub extern "C" fn check_C26_key() {
    world26(true);
    let n = sym::param("n", 2) as usize;
    let key = sym::string("k", 0, n, b"ab/*");
    let mut stars = 0;
    for c in key.as_bytes() {
        stars += (*c == b'*') as usize;
    }
    sym::assume(stars < 2);
    let b = sym::choose("base", 5);
    let (url, base) = bases(b);
    let t = targets(sym::choose("targets", TARGETS));
    let js = cat(&["{\"compilerOptions\":{", &base_json(&url), "\"paths\":{\"", &key, "\":", &list_json(&t), "}}}"]);
    vfs::file("w/tsconfig.json", &js);
    vfs::commit();
    let req = sym::string("r", 1, sym::param("r", 3) as usize, b"ab/.");
    sym::assume(plain_end(&req));
    note_s("config", &js);
    note_s("req", &req);
    let o = resolve(&resolver26(true, false), &vfs::abs("w/x"), &req);
    note_out("out", &o);
    if url.is_some() {
        if let Some(s) = star(&key, &req) {
            sym::cover("match");
            let exts = sv(&[".js"]);
            let r = Ref::new(&exts);
            for x in &t {
                let p = mapped(&base, x, &s);
                if let Some(f) = r.path(&p) {
                    sym::cover("mapped");
                    sym::check(is_file_at(&o, &f), "a matching request is not mapped to the first target that exists");
                    return;
                }
            }
        }
    }
    let plain = resolve(&resolver26(false, false), &vfs::abs("w/x"), &req);
    sym::check(o == plain, "a request that paths does not serve is not answered as without a tsconfig");
}
/// C26: two keys
#[no_mangle]
pub extern "C" fn check_C26_two() {
    world26(false);
    let keys = ["a", "a*", "*", "*b", "a/*", "ab", "*a", "b*b"];
    let (k1, k2) = (keys[sym::choose("k1", keys.len())], keys[sym::choose("k2", keys.len())]);
    sym::assume(k1 != k2);
    let t = targets;
    let (t1, t2) = (t([0, 1, 2, 3, 4][sym::choose("t1", 5)]), t([0, 8, 5][sym::choose("t2", 3)]));
    let (url, base) = bases(sym::choose("base", 2));
    let js = cat(&["{\"compilerOptions\":{", &base_json(&url), "\"paths\":{\"", k1, "\":", &list_json(&t1), ",\"", k2, "\":", &list_json(&t2), "}}}"]);
    vfs::file("w/tsconfig.json", &js);
    vfs::commit();
    let reqs = ["a", "b", "ab", "ba", "a/b", "bab", "bb", "./a", "c"];
    let req = reqs[sym::choose("req", reqs.len())];
    note_s("config", &js);
    let o = resolve(&resolver26(true, false), &vfs::abs("w/x"), req);
    note_out("out", &o);
    let exts = sv(&[".js"]);
    let r = Ref::new(&exts);
    let first = |k: &str, t: &[String]| -> Option<String> {
        let s = star(k, req)?;
        for x in t {
            if let Some(f) = r.path(&mapped(&base, x, &s)) {
                return Some(f);
            }
        }
        None
    };
    let (a, b) = (first(k1, &t1), first(k2, &t2));
    match (&a, &b) {
        (None, None) => {
            let plain = resolve(&resolver26(false, false), &vfs::abs("w/x"), req);
            sym::check(o == plain, "a request that paths does not serve is not answered as without a tsconfig");
        }
        (Some(x), None) | (None, Some(x)) => sym::check(is_file_at(&o, x), "a request served by one of two keys is not mapped"),
        (Some(x), Some(y)) => {
            if k1 == req {
                sym::check(is_file_at(&o, x), "an equal key is passed over for a pattern");
            } else if k2 == req {
                sym::check(is_file_at(&o, y), "an equal key is passed over for a pattern");
            } else {
                sym::check(is_file_at(&o, x) || is_file_at(&o, y), "a request served by both keys is not mapped");
            }
        }
    }
}
/// C26: beside the other ways to answer a request
#[no_mangle]
pub extern "C" fn check_C26_mix() {
    // a package with metadata as the target, alias and browser map for the fall back
    vfs::file("w/package.json", "{\"name\":\"w\",\"browser\":{\"m\":\"./a.js\",\"./x/t.js\":\"./a.js\"},\"imports\":{\"#i\":\"./a.js\"}}");
    vfs::file("w/a.js", "");
    vfs::maybe("w/x/t.js", &AF, "");
    vfs::maybe("w/x/m/package.json", &AF, "{\"main\":\"./lib/main\"}");
    vfs::maybe("w/x/m/lib/main.js", &AF, "");
    vfs::file("w/x/m/index.js", "");
    vfs::file("node_modules/m/index.js", "");
    vfs::file("node_modules/al.js", "");
    let keys = ["t", "m", "*", "al", "#*", "./*", "m*", "/*", "n"];
    let key = keys[sym::choose("key", keys.len())];
    let forms = ["./x/*", "x/t", "x/m", "m", "./x/m/", "gone"];
    let f = forms[sym::choose("target", forms.len())];
    let comment = sym::flag("comments");
    let js = cat(&[
        if comment { "// one\n" } else { "" },
        "{\"compilerOptions\":{\"baseUrl\":\".\",",
        if comment { "/* two , */" } else { "" },
        "\"paths\":{\"", key, "\":[\"", f, "\"", if comment { "," } else { "" }, "]}", if comment { "," } else { "" }, "}}",
    ]);
    vfs::file("w/tsconfig.json", &js);
    vfs::commit();
    note_s("config", &js);
    let browser = sym::flag("browser");
    let alias = sym::flag("alias");
    let prefer = sym::flag("prefer");
    let make = |ts: bool| {
        Resolver::new(ResolverOptions {
            browser_field: browser,
            prefer_relative: prefer,
            alias: if alias { vec![("al".into(), AliasMap::Target("./a".into())), ("n".into(), AliasMap::Ignored)] } else { vec![] },
            tsconfig: if ts { Some(vfs::abs("w/tsconfig.json").into()) } else { None },
            ..opts(&sv(&[".js"]))
        })
    };
    let reqs = ["t", "m", "al", "#i", "./a", "n", "m/lib/main", "gone"];
    let req = reqs[sym::choose("req", reqs.len())];
    let r = make(true);
    let o = resolve(&r, &vfs::abs("w"), req);
    note_out("out", &o);
    let plain = make(false);
    if let Some(s) = star(key, req) {
        // the target is asked for by its path
        let p = mapped(&vfs::abs("w"), f, &s);
        let t = resolve(&plain, "/", &p);
        if !is_err(&t) {
            sym::check(o == t, "a matching request is not answered like its target");
            return;
        }
    }
    let p = resolve(&plain, &vfs::abs("w"), req);
    sym::check(o == p, "a request that paths does not serve is not answered as without a tsconfig");
}

// ------------------------------------------------------------------ C27
struct Level {
    base: Option<&'static str>,
    a: Option<&'static str>,
    b: Option<&'static str>,
}
fn opt<'a>(name: &str, v: &[Option<&'a str>]) -> Option<&'a str> {
    v[sym::choose(name, v.len())]
}
fn level_json(l: &Level, extends: Option<&str>, form: usize) -> String {
    let mut parts: Vec<String> = vec![];
    if let Some(b) = l.base {
        parts.push(cat(&["\"baseUrl\":\"", b, "\""]));
    }
    let mut ps = vec![];
    if let Some(t) = l.a {
        ps.push(cat(&["\"a\":[\"", t, "\"]"]));
    }
    if let Some(t) = l.b {
        ps.push(cat(&["\"b/*\":[\"", t, "/*\"]"]));
    }
    if !ps.is_empty() || form == 1 {
        parts.push(cat(&["\"paths\":{", &ps.join(","), "}"]));
    }
    let mut s = String::from("{");
    let mut first = true;
    if let Some(e) = extends {
        s.push_str(&cat(&["\"extends\":\"", e, "\""]));
        first = false;
    }
    if !parts.is_empty() || form == 1 {
        if !first {
            s.push(',');
        }
        s.push_str(&cat(&["\"compilerOptions\":{", &parts.join(","), "}"]));
    }
    s.push('}');
    s
}
/// C27: up to three files, each with any of the settings
#[no_mangle]
pub extern "C" fn check_C27_chain() {
    let n = 1 + sym::choose("levels", sym::param("levels", 3) as usize);
    let places = ["w", "w/conf", "node_modules/p/deep"];
    let links = ["./conf/base.json", "p/deep/base.json"];
    let names = ["tsconfig.json", "base.json", "base.json"];
    let ta: [[Option<&str>; 3]; 3] = [[None, Some("f0"), Some("gone")], [None, Some("f1"), Some("gone")], [None, Some("f2"), None]];
    let tb: [[Option<&str>; 2]; 3] = [[None, Some("d0")], [None, Some("d1")], [None, Some("d2")]];
    let form = sym::choose("form", 2);
    let mut levels = vec![];
    for i in 0..n {
        let l = Level {
            base: opt("base", &[None, Some("."), Some("./x")][..if i == 2 { 2 } else { 3 }]),
            a: opt("a", &ta[i][..if i == 2 { 2 } else { 3 }]),
            b: opt("b", &tb[i]),
        };
        let ext = if i + 1 < n { Some(links[i]) } else { None };
        let js = level_json(&l, ext, form);
        vfs::file(&join(places[i], names[i]), &js);
        note_s("config", &js);
        levels.push(l);
    }
    // every place that a wrong reading could lead to has the file, too
    for b in ["w", "w/x", "w/conf", "w/conf/x", "node_modules/p/deep"] {
        for i in 0..n {
            vfs::file(&join(b, ["f0.js", "f1.js", "f2.js"][i]), "");
            vfs::file(&join(b, ["d0/z.js", "d1/z.js", "d2/z.js"][i]), "");
        }
    }
    vfs::file("node_modules/a/index.js", "");
    vfs::commit();
    let which = sym::flag("star");
    let req = if which { "b/z" } else { "a" };
    let o = resolve(&resolver26(true, false), &vfs::abs("w"), req);
    note_out("out", &o);
    let mut base = None;
    let mut t = None;
    for l in &levels {
        base = base.or(l.base);
        t = t.or(if which { l.b } else { l.a });
    }
    if let (Some(b), Some(t)) = (base, t) {
        let p = under(&under(&vfs::abs("w"), b), &cat(&[t, if which { "/z.js" } else { ".js" }]));
        if vfs::is_file(&p) {
            sym::cover("mapped");
            sym::check(is_file_at(&o, &p), "the settings of a chain of tsconfigs are not merged with the extending file first");
            return;
        }
    }
    if which {
        sym::check(is_err(&o), "a request no setting serves resolves");
    } else {
        sym::check(is_file_at(&o, &vfs::abs("node_modules/a/index.js")), "a request no setting serves is not answered as without a tsconfig");
    }
}
/// C27: the ways to name the extended file, and what else it may hold
#[no_mangle]
pub extern "C" fn check_C27_forms() {
    // (extends, where it leads to)
    let forms = [
        ("./base.json", "w/base.json"),
        ("./base", "w/base.json"),
        ("../base.json", "base.json"),
        ("./c/../base.json", "w/base.json"),
        ("p/base.json", "node_modules/p/base.json"),
        ("p", "node_modules/p/main.json"),
        ("@s/p", "node_modules/@s/p/tsconfig.json"),
        ("q", "w/node_modules/q/index.json"),
        ("ABS", "c/base.json"),
        ("./gone", ""),
        ("gone", ""),
    ];
    let i = sym::choose("extends", forms.len());
    let (e, at) = forms[i];
    let e = if e == "ABS" { vfs::abs("c/base.json") } else { e.to_string() };
    vfs::dir("w/c");
    vfs::file("node_modules/p/package.json", "{\"main\":\"./main.json\"}");
    vfs::file("node_modules/@s/p/package.json", "{\"name\":\"@s/p\",\"exports\":{\".\":\"./tsconfig.json\"}}");
    let body = sym::choose("body", 4);
    let base_js = [
        "{\"compilerOptions\":{\"baseUrl\":\"./x\",\"strict\":true,\"lib\":[\"a\",1],\"paths\":{\"a\":[\"f1\"],\"*\":[\"gone\",\"g*\"]}}}",
        "// comment\n{\"compilerOptions\":{\"paths\":{\"a\":[\"f1\",\"f0\"],},\"baseUrl\":\".\",},}",
        "{\"files\":[],\"include\":{},\"compilerOptions\":{\"paths\":{\"b\":[\"f1\"]},\"target\":\"es5\"}}",
        "{}",
    ][body];
    if !at.is_empty() {
        vfs::file(at, base_js);
    }
    let top = sym::choose("top", 4);
    let tops = [
        ("", None, None),
        (",\"compilerOptions\":{\"baseUrl\":\".\"}", Some("."), None),
        (",\"compilerOptions\":{\"strict\":false,\"paths\":{\"a\":[\"f0\"]}}", None, Some("f0")),
        (",\"compilerOptions\":{\"baseUrl\":\"x\",\"paths\":{\"a\":[\"f0\"],\"c\":[]}}", Some("x"), Some("f0")),
    ];
    let (tj, tbase, ta) = tops[top];
    let js = cat(&["{\"extends\":\"", &e, "\"", tj, "}"]);
    vfs::file("w/tsconfig.json", &js);
    for b in ["w", "w/x", "node_modules/p", "node_modules/p/x", "x", "c/x", "c", "w/node_modules/q/x"] {
        for f in ["f0.js", "f1.js", "ga.js", "gb.js"] {
            vfs::file(&join(b, f), "");
        }
    }
    vfs::commit();
    note_s("config", &js);
    let r = Resolver::new(ResolverOptions { tsconfig: Some(vfs::abs("w/tsconfig.json").into()), ..opts(&sv(&[".js", ".json"])) });
    let req = ["a", "b"][sym::choose("req", 2)];
    let o = resolve(&r, &vfs::abs("w"), req);
    note_out("out", &o);
    let there = !at.is_empty();
    let base = tbase.or(if there { [Some("./x"), Some("."), None, None][body] } else { None });
    let mut list: Vec<&str> = vec![];
    if req == "a" {
        match ta {
            Some(t) => list.push(t),
            None if there && body < 2 => list.push("f1"),
            None => {}
        }
        // an equal key goes first, the target exists: the pattern is not reached
    } else if there && body == 0 {
        list.push("gb");
    } else if there && body == 2 {
        list.push("f1");
    }
    match (base, list.first()) {
        (Some(b), Some(t)) => {
            let p = cat(&[&under(&under(&vfs::abs("w"), b), t), ".js"]);
            sym::check(is_file_at(&o, &p), "an inherited setting does not take effect as if it was written in the extending file");
        }
        _ => {
            // a missing extended file may also be reported; nothing else answers
            sym::check(is_err(&o), "a request no setting serves resolves");
        }
    }
}
const SHAPES: [&str; 22] = [
    "null", "true", "0", "-1", "\"\"", "\"a\"", "\"./base\"", "[]", "[null]", "[\"a\"]", "[[\"a\"]]", "{}", "{\"\":[]}", "{\"a\":\"f\"}", "{\"a\":[1]}", "{\"a\":null}", "{\"a\":[\"f\",null]}",
    "{\"*\":[\"*\"]}", "{\"**\":[\"*\"]}", "{\"\\u00e9*\":[\"\\u0000\"]}", "{\"a\":{}}", "{\"paths\":{\"a\":[\"f\"]},\"baseUrl\":\".\"}",
];
/// C27: values of any shape
#[no_mangle]
pub extern "C" fn check_C27_shapes() {
    let place = sym::choose("place", 7);
    let s = SHAPES[sym::choose("shape", SHAPES.len())];
    let t = SHAPES[sym::choose("shape2", sym::param("second", 6) as usize)];
    let (a, b) = match place {
        0 => (s.to_string(), "{}".to_string()),
        1 => (cat(&["{\"compilerOptions\":", s, "}"]), String::new()),
        2 => (cat(&["{\"compilerOptions\":{\"baseUrl\":", s, ",\"paths\":", t, "}}"]), String::new()),
        3 => (cat(&["{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":", s, "}}"]), String::new()),
        4 => (cat(&["{\"extends\":", s, ",\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"a\":[\"f\"]}}}"]), t.to_string()),
        5 => ("{\"extends\":\"./base\"}".to_string(), cat(&["{\"compilerOptions\":", s, "}"])),
        _ => (cat(&["{\"extends\":\"./base.json\",\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":", t, "}}"]), cat(&["{\"compilerOptions\":{\"paths\":", s, "}}"])),
    };
    vfs::file("w/tsconfig.json", &a);
    vfs::file("w/base.json", &b);
    vfs::file("w/f.js", "");
    vfs::file("node_modules/a/index.js", "");
    vfs::commit();
    note_s("config", &a);
    note_s("base", &b);
    let r = Resolver::new(ResolverOptions { tsconfig: Some(vfs::abs("w/tsconfig.json").into()), ..opts(&sv(&[".js", ".json"])) });
    let req = ["a", "", "\u{e9}", "./f"][sym::choose("req", 4)];
    let o = resolve(&r, &vfs::abs("w"), req);
    note_out("out", &o);
    let text = s.as_bytes()[0] == b'"';
    if place == 2 && !text {
        sym::check(is_err(&o), "a baseUrl that is no string is not reported");
    }
    if place == 3 {
        let i = (0..SHAPES.len()).find(|i| SHAPES[*i] == s).unwrap();
        // objects of lists of strings: {}, {"":[]}, the patterns
        let good = i == 11 || i == 12 || i == 17 || i == 18 || i == 19;
        if !good {
            sym::check(is_err(&o), "paths that are no lists of strings are not reported");
        }
    }
}
/// C27: any bytes at several places
#[no_mangle]
pub extern "C" fn check_C27_bytes() {
    let frames = [
        ("", ""),
        ("{\"compilerOptions\":{\"baseUrl\":\"", "\",\"paths\":{\"a\":[\"f\"]}}}"),
        ("{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"", "\":[\"f\"]}}}"),
        ("{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"a\":[\"", "\"]}}}"),
        ("{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":", "}}"),
        ("{\"extends\":\"", "\"}"),
        ("{\"extends\":\"./base\"}/", ""),
    ];
    let i = sym::choose("frame", frames.len());
    let n = sym::choose("n", sym::param("n", 1) as usize + 1);
    let mut doc = frames[i].0.as_bytes().to_vec();
    for _ in 0..n {
        doc.push(sym::u8v("byte"));
    }
    doc.extend_from_slice(frames[i].1.as_bytes());
    let base = sym::flag("inner");
    if base {
        vfs::file("w/tsconfig.json", "{\"extends\":\"./base\"}");
        vfs::add("w/base.json", vfs::FILE, &doc);
    } else {
        vfs::add("w/tsconfig.json", vfs::FILE, &doc);
        vfs::file("w/base.json", "{}");
    }
    vfs::file("w/f.js", "");
    vfs::commit();
    let r = Resolver::new(ResolverOptions { tsconfig: Some(vfs::abs("w/tsconfig.json").into()), ..opts(&sv(&[".js", ".json"])) });
    let o = resolve(&r, &vfs::abs("w"), ["a", "./f"][sym::choose("req", 2)]);
    note_kind("out", &o);
    if std::str::from_utf8(&doc).is_err() {
        sym::cover("not UTF-8");
        sym::check(is_err(&o), "a tsconfig that is not UTF-8 is not reported");
    }
}
