//! No input crashes, everything ends: C21, C22, C23
use super::refr::*;
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;
use std::path::Path;

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("check_C21_bytes", check_C21_bytes),
    ("check_C21_dirs", check_C21_dirs),
    ("check_C21_deep", check_C21_deep),
    ("check_C22_shapes", check_C22_shapes),
    ("check_C22_pairs", check_C22_pairs),
    ("check_C22_bytes", check_C22_bytes),
    ("check_C22_deep", check_C22_deep),
    ("check_C23_alias", check_C23_alias),
    ("check_C23_browser", check_C23_browser),
    ("check_C23_imports", check_C23_imports),
    ("check_C23_main", check_C23_main),
    ("check_C23_mixed", check_C23_mixed),
    ("check_C32_edits", check_C32_edits),
    ("check_C32_short", check_C32_short), ("check_C32_around", check_C32_around),
];
const AF: [u8; 2] = [vfs::ABSENT, vfs::FILE];

// ------------------------------------------------------------------ C21
fn rich() {
    vfs::file(
        "w/package.json",
        "{\"name\":\"w\",\"browser\":{\"./a.js\":\"./b.js\",\"a\":false,\"\":\"./b.js\"},\"imports\":{\"#a\":\"./a.js\",\"#a/*\":\"./*.js\",\"#b/\":\"./\",\"#*\":\"a\"},\"exports\":{\"./a\":\"./a.js\",\"./*\":\"./*\"}}",
    );
    for f in ["w/a.js", "w/b.js", "w/a/index.js", "node_modules/a.js", "w/\u{e9}"] {
        vfs::file(f, "");
    }
    vfs::file("node_modules/a/package.json", "{\"main\":\"./a.js\",\"exports\":{\".\":\"./a.js\",\"./*\":[\"./*\",\"./a.js\"],\"./a/\":\"./\"}}");
    vfs::file("node_modules/a/a.js", "");
    vfs::file("node_modules/@a/a/package.json", "{\"name\":\"@a/a\",\"exports\":{\"./a*\":\"./a*\"},\"imports\":{\"#a\":\"a\"}}");
    vfs::file("node_modules/@a/a/a", "");
    vfs::file("w/tsconfig.json", "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"a*\":[\"./*\"],\"*/a\":[\"*\",\"a\"],\"\":[\"a\"]}}}");
    vfs::commit();
}
fn config(i: usize) -> Resolver {
    let mut o = opts(&sv(&[".js"]));
    match i {
        0 => {}
        1 => {
            o.browser_field = true;
            o.prefer_relative = true;
        }
        2 => {
            o.alias = vec![("a".into(), AliasMap::Target("./a".into())), ("@".into(), AliasMap::Ignored), ("#".into(), AliasMap::Target("a/".into())), ("".into(), AliasMap::Target("b".into()))];
            o.tsconfig = Some(vfs::abs("w/tsconfig.json").into());
        }
        _ => {
            o.enforce_extension = Some(true);
            o.symlinks = false;
            o.description_file = None;
            o.tsconfig = Some(vfs::abs("w/tsconfig.json").into());
        }
    }
    Resolver::new(o)
}
/// any text of a few characters
fn text(n: usize) -> String {
    let mut v: Vec<u8> = vec![];
    for _ in 0..n {
        match sym::choose("width", sym::param("widths", 4) as usize) {
            0 => v.push(sym::range("c", 0, 0x7f)),
            1 => {
                v.push(sym::range("c2", 0xc2, 0xdf));
                v.push(sym::range("d2", 0x80, 0xbf));
            }
            2 => {
                v.push(0xe4);
                v.push(sym::range("d3", 0x80, 0xbf));
                v.push(sym::range("e3", 0x80, 0xbf));
            }
            _ => {
                v.extend_from_slice(&[0xf0, 0x9f]);
                v.push(sym::range("d4", 0x80, 0xbf));
                v.push(sym::range("e4", 0x80, 0xbf));
            }
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// C21: a lead and a few symbolic characters
#[no_mangle]
pub extern "C" fn check_C21_bytes() {
    rich();
    let leads = ["", "a", "@", "#", "./", "@a/a", "a/", "#a/"];
    let lead = leads[sym::choose("lead", leads.len())];
    let n = sym::choose("n", sym::param("n", 2) as usize + 1);
    let mut req = lead.to_string();
    req.push_str(&text(n));
    let tails = ["", "/", "/a"];
    req.push_str(tails[sym::choose("tail", tails.len())]);
    let r = config(sym::choose("config", 4));
    let o = resolve(&r, &vfs::abs("w"), &req);
    note_kind("out", &o);
    sym::cover(if is_err(&o) { "error" } else { "answer" });
}
/// C21: every issuing directory
#[no_mangle]
pub extern "C" fn check_C21_dirs() {
    rich();
    let base = vfs::abs("w");
    let dirs: [&str; 18] = [
        &base, "", ".", "..", "/", "//", "w", "w/gone", "./w/", "\u{0}", "a\u{0}b", "\u{e9}", "/\u{4e2d}/x", " ", "~", "C:\\", "node_modules", "../../../../..",
    ];
    let d = sym::choose("dir", dirs.len() + 4);
    let dir = match d {
        x if x < dirs.len() => dirs[x].to_string(),
        18 => vfs::abs("w/a.js"),
        19 => vfs::abs("w/gone/x/y"),
        20 => cat(&[&vfs::abs("w"), "/../w/./a//"]),
        _ => vfs::abs("w/a.js/x"),
    };
    let lead = ["", "./", "../", "/", "#", "@", "a", "@a/a", "C:/", "../../../../../../..", "a/../../..", "./a/", "\u{e9}/\u{4e2d}", "?", "#a?b#c"];
    let mut req = lead[sym::choose("lead", lead.len())].to_string();
    if sym::flag("more") {
        req.push(sym::range("c", 0, 0x7f) as char);
    }
    let r = config(sym::choose("config", 4));
    // the answer may depend on the working directory
    let _ = resolve(&r, &dir, &req);
}
/// C21: long requests and deep directories: recursion does not grow with the number of segments
#[no_mangle]
pub extern "C" fn check_C21_deep() {
    rich();
    let mut n = sym::param("segments", 80) as usize;
    if sym::is_native() {
        // a recursion that follows the segments is then visible as an exhausted stack
        n *= 60;
    }
    let seg = ["a/", "../", "./", "a/../", "//", "@a/"][sym::choose("segment", 6)];
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(seg);
    }
    let lead = ["./", "/", "", "@", "#", "DIR", "\u{e9}", "MAIN", "FRAG"][sym::choose("lead", 9)];
    let c = sym::choose("config", 4);
    let r = config(c);
    match lead {
        "DIR" => {
            let dir = cat(&[&vfs::abs("w"), "/", &s]);
            let _ = resolve(&r, &dir, ["a", "./b", "#a", "gone/x"][sym::choose("req", 4)]);
            if c != 3 {
                let _ = r.load_side_effects(Path::new(&dir)).is_ok();
            }
        }
        "MAIN" => {
            let _ = resolve(&r, &vfs::abs("w"), &cat(&["a/", &s, "?", &s, "#", &s]));
        }
        "FRAG" => {
            let _ = resolve(&r, &vfs::abs("w"), &cat(&["./a?", &s, "#", &s]));
        }
        _ => {
            let _ = resolve(&r, &vfs::abs("w"), &cat(&[lead, &s, "b"]));
        }
    }
}

// ------------------------------------------------------------------ C22
const SHAPES: [&str; 44] = [
    "null",
    "true",
    "false",
    "0",
    "-1.5e3",
    "\"\"",
    "\"a\"",
    "\"./a.js\"",
    "\".\"",
    "\"..\"",
    "\"/\"",
    "\"./\"",
    "\"*\"",
    "\"#a\"",
    "\"\\u00e9\\ud83d\\ude00\\u0000\"",
    "[]",
    "[null]",
    "[[]]",
    "[[\"./a.js\"]]",
    "[\"./a.js\",1]",
    "[\"./gone\",\"./a.js\"]",
    "[{}]",
    "[{\"node\":[[null]]}]",
    "{}",
    "{\"\":\"\"}",
    "{\"\":null}",
    "{\".\":null}",
    "{\".\":\"./a.js\",\"x\":\"./a.js\"}",
    "{\"./a\":null,\"./*\":\"./a.js\"}",
    "{\"./a\":1}",
    "{\"/\":\"./a.js\"}",
    "{\"/a\":\"./a.js\"}",
    "{\"..\":\"./a.js\"}",
    "{\".a\":\"./a.js\"}",
    "{\"./*\":\"./*\",\"./a*\":\"a\",\"./*b*\":\"./*/*\"}",
    "{\"#\":\"./a.js\"}",
    "{\"#/\":\"./a.js\"}",
    "{\"#a\":null}",
    "{\"#a\":[\"a\",{\"node\":1}],\"#*\":\"#*\"}",
    "{\"#a\":{\"node\":{\"default\":true}}}",
    "{\"default\":\"./a.js\",\"node\":\"./a.js\"}",
    "{\"node\":{\"default\":null,\"node\":\"./a.js\"}}",
    "{\"node\":{\"./a\":\"./a.js\"}}",
    "{\"./\\u00e9*\":\"./*\",\"./a/\":\"./\",\"./a/b\":\"./a/\",\"./\":\"\"}",
];
const FIELDS: [&str; 7] = ["name", "main", "browser", "exports", "imports", "sideEffects", "version"];
fn c22_world(doc: &[u8]) -> usize {
    let i = vfs::add("node_modules/a/package.json", vfs::FILE, doc);
    for f in ["a.js", "index.js", "a", "b/index.js"] {
        vfs::file(&join("node_modules/a", f), "");
    }
    vfs::commit();
    i
}
fn c22_run(i: usize) -> Out {
    let r = Resolver::new(ResolverOptions { browser_field: true, main_fields: sv(&["main", "browser", "name"]), ..opts(&sv(&[".js"])) });
    let ops = [("", "a"), ("", "a/a"), ("node_modules/a", "#a"), ("node_modules/a", "./a"), ("node_modules/a/b", "a/b"), ("", "a/\u{e9}a")];
    let o = if i < ops.len() {
        resolve(&r, &vfs::abs(ops[i].0), ops[i].1)
    } else {
        match r.load_side_effects(Path::new(&vfs::abs("node_modules/a"))) {
            Ok(_) => Out::Ignored,
            Err(e) => Out::Err(e),
        }
    };
    note_kind("out", &o);
    o
}
const C22_OPS: usize = 7;
/// C22: one field of every shape, or the whole document
#[no_mangle]
pub extern "C" fn check_C22_shapes() {
    let f = sym::choose("field", FIELDS.len() + 1);
    let s = SHAPES[sym::choose("shape", SHAPES.len())];
    let doc = if f == FIELDS.len() { s.to_string() } else { cat(&["{\"", FIELDS[f], "\":", s, "}"]) };
    c22_world(doc.as_bytes());
    note_s("doc", &doc);
    c22_run(sym::choose("op", C22_OPS));
}
/// C22: two fields
#[no_mangle]
pub extern "C" fn check_C22_pairs() {
    let f = sym::choose("field", FIELDS.len() - 1);
    let g = sym::choose("other", FIELDS.len() - 1);
    sym::assume(f < g);
    let pick = |n: &str| -> &str {
        let few = [1, 5, 7, 8, 11, 15, 18, 23, 27, 34, 36, 40];
        SHAPES[few[sym::choose(n, few.len())]]
    };
    let doc = cat(&["{\"", FIELDS[f], "\":", pick("shape"), ",\"", FIELDS[g], "\":", pick("shape2"), "}"]);
    c22_world(doc.as_bytes());
    note_s("doc", &doc);
    c22_run(sym::choose("op", sym::param("ops", 3) as usize));
}
/// is it JSON: RFC 8259, on bytes
struct Json<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> Json<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n' || self.b[self.i] == b'\t' || self.b[self.i] == b'\r') {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &[u8]) -> bool {
        if self.b.len() - self.i >= s.len() && &self.b[self.i..self.i + s.len()] == s {
            self.i += s.len();
            return true;
        }
        false
    }
    fn digits(&mut self) -> bool {
        let s = self.i;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            self.i += 1;
        }
        self.i > s
    }
    fn string(&mut self) -> bool {
        // after the quote
        let mut high = false; // a high surrogate waits for the low one
        loop {
            if self.i >= self.b.len() {
                return false;
            }
            let c = self.b[self.i];
            self.i += 1;
            if c == b'\\' {
                if self.i >= self.b.len() {
                    return false;
                }
                let e = self.b[self.i];
                self.i += 1;
                if e == b'u' {
                    let mut v = 0u32;
                    for _ in 0..4 {
                        if self.i >= self.b.len() || !self.b[self.i].is_ascii_hexdigit() {
                            return false;
                        }
                        v = v * 16 + (self.b[self.i] as char).to_digit(16).unwrap();
                        self.i += 1;
                    }
                    if high != (v >= 0xdc00 && v < 0xe000) {
                        return false;
                    }
                    high = v >= 0xd800 && v < 0xdc00;
                    continue;
                }
                if !(e == b'"' || e == b'\\' || e == b'/' || e == b'b' || e == b'f' || e == b'n' || e == b'r' || e == b't') {
                    return false;
                }
            } else if c == b'"' {
                return !high;
            } else if c < 0x20 {
                return false;
            }
            if high {
                return false;
            }
        }
    }
    fn value(&mut self) -> bool {
        self.ws();
        if self.i >= self.b.len() {
            return false;
        }
        let c = self.b[self.i];
        let ok = if c == b'"' {
            self.i += 1;
            self.string()
        } else if c == b'{' || c == b'[' {
            self.i += 1;
            let end = if c == b'{' { b'}' } else { b']' };
            self.ws();
            if self.i < self.b.len() && self.b[self.i] == end {
                self.i += 1;
                true
            } else {
                loop {
                    if c == b'{' {
                        self.ws();
                        if !self.lit(b"\"") || !self.string() {
                            return false;
                        }
                        self.ws();
                        if !self.lit(b":") {
                            return false;
                        }
                    }
                    if !self.value() {
                        return false;
                    }
                    if self.i < self.b.len() && self.b[self.i] == b',' {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                self.i < self.b.len() && {
                    self.i += 1;
                    self.b[self.i - 1] == end
                }
            }
        } else if c == b't' {
            self.lit(b"true")
        } else if c == b'f' {
            self.lit(b"false")
        } else if c == b'n' {
            self.lit(b"null")
        } else {
            if c == b'-' {
                self.i += 1;
            }
            if self.lit(b"0") {
            } else if !self.digits() {
                return false;
            }
            if self.i < self.b.len() && self.b[self.i] == b'.' {
                self.i += 1;
                if !self.digits() {
                    return false;
                }
            }
            if self.i < self.b.len() && (self.b[self.i] == b'e' || self.b[self.i] == b'E') {
                self.i += 1;
                if self.i < self.b.len() && (self.b[self.i] == b'+' || self.b[self.i] == b'-') {
                    self.i += 1;
                }
                if !self.digits() {
                    return false;
                }
            }
            true
        };
        if ok {
            self.ws();
        }
        ok
    }
}
fn is_json(b: &[u8]) -> bool {
    if std::str::from_utf8(b).is_err() {
        return false;
    }
    let mut j = Json { b, i: 0 };
    j.value() && j.i == b.len()
}
fn contains(s: &str, t: &str) -> bool {
    let (a, b) = (s.as_bytes(), t.as_bytes());
    let mut i = 0;
    while i + b.len() <= a.len() {
        if &a[i..i + b.len()] == b {
            return true;
        }
        i += 1;
    }
    false
}
/// C22: any bytes at several places of a document
#[no_mangle]
pub extern "C" fn check_C22_bytes() {
    let frames = [
        ("", ""),
        ("{\"main\":", "}"),
        ("{\"exports\":\"./", "\"}"),
        ("{\"exports\":{\"", "\":\"./a.js\"}}"),
        ("{\"browser\":{\"", "\":\"./a.js\"}}"),
        ("{\"imports\":{\"#", "\":\"./a.js\"}}"),
        ("{\"imports\":{\"#a\":\"", "\"}}"),
        ("{\"name\":\"a", "\",\"exports\":\"./a.js\"}"),
        ("{\"sideEffects\":[", "]}"),
        ("{}", ""),
        ("{\"a\":1", "}"),
    ];
    let f = sym::choose("frame", frames.len());
    let n = sym::choose("n", sym::param("n", 2) as usize + 1);
    let mut doc = frames[f].0.as_bytes().to_vec();
    for _ in 0..n {
        doc.push(sym::u8v("byte"));
    }
    doc.extend_from_slice(frames[f].1.as_bytes());
    c22_world(&doc);
    let op = sym::choose("op", 5);
    let o = c22_run(if op == 4 { 6 } else { op });
    if !is_json(&doc) {
        sym::cover("not JSON");
        match &o {
            Out::Err(e) => sym::check(contains(e, &vfs::abs("node_modules/a/package.json")), "the error does not name the malformed file"),
            _ => sym::check(false, "a malformed description file is not reported"),
        }
    }
}
/// C22: nesting: neither parsing nor lookup recurses without bound
#[no_mangle]
pub extern "C" fn check_C22_deep() {
    let mut n = sym::param("levels", 60) as usize;
    if sym::is_native() {
        n *= 2000;
    }
    let form = sym::choose("form", 5);
    let (a, b) = [("[", "]"), ("{\"node\":", "}"), ("[{\"node\":", "}]"), ("{\".\":", "}"), ("{\"#a\":", "}")][form];
    let field = FIELDS[sym::choose("field", FIELDS.len())];
    let mut doc = cat(&["{\"", field, "\":"]);
    for _ in 0..n {
        doc.push_str(a);
    }
    doc.push_str("\"./a.js\"");
    for _ in 0..n {
        doc.push_str(b);
    }
    doc.push('}');
    vfs::add("node_modules/a/package.json", vfs::FILE, doc.as_bytes());
    vfs::file("node_modules/a/a.js", "");
    vfs::commit();
    let r = Resolver::new(ResolverOptions { browser_field: true, ..opts(&sv(&[".js"])) });
    let _ = resolve(&r, &vfs::abs(""), "a");
    let _ = resolve(&r, &vfs::abs("node_modules/a"), "#a");
}

// ------------------------------------------------------------------ C23
fn target(name: &str, n: usize) -> AliasMap {
    AliasMap::Target(match sym::choose("kind", 3) {
        0 => sym::string(name, 0, n, b"ab/"),
        1 => cat(&["./", &sym::string(name, 0, n, b"ab/.")]),
        _ => cat(&["#", &sym::string(name, 0, n, b"ab")]),
    })
}
/// C23: alias entries of any shape
#[no_mangle]
pub extern "C" fn check_C23_alias() {
    vfs::file("package.json", "{\"browser\":{\"a\":\"b\",\"b\":\"a\",\"./a\":\"./b\",\"./b\":\"./a\"},\"imports\":{\"#a\":\"#b\",\"#b\":\"a\"},\"name\":\"ab\"}");
    vfs::maybe("a", &AF, "");
    vfs::maybe("node_modules/a/index.js", &AF, "");
    vfs::commit();
    let mut alias = vec![];
    let n = sym::param("n", 1) as usize;
    for i in 0..sym::param("alias", 2) as usize {
        let key = match sym::choose("keykind", 2) {
            0 => sym::string("k", 0, if i == 0 { n } else { 1 }, b"ab/#"),
            _ => cat(&["./", &sym::string("k", 0, 1, b"ab/.")]),
        };
        alias.push((key, target("t", if i == 0 { n } else { 1 })));
    }
    let req = sym::string("r", 1, sym::param("req", 1) as usize, b"ab/.#");
    for (k, t) in &alias {
        if let AliasMap::Target(t) = t {
            note_s("alias", &cat(&[k, " -> ", t]));
        }
    }
    note_s("req", &req);
    let mode = sym::choose("mode", 3);
    let r = Resolver::new(ResolverOptions { alias, browser_field: mode == 1, prefer_relative: mode == 2, ..opts(&sv(&[".js"])) });
    let o = resolve(&r, &vfs::abs(""), &req);
    note_kind("out", &o);
}
/// C23: browser maps whose entries lead to each other
#[no_mangle]
pub extern "C" fn check_C23_browser() {
    let names = ["./a", "./a.js", "m", "./d", "a", ".", "#m"];
    let mut js = String::from("{\"name\":\"m\",\"imports\":{\"#m\":\"./a\"},\"browser\":{");
    let k = sym::param("entries", 2) as usize;
    for i in 0..k {
        if i > 0 {
            js.push(',');
        }
        js.push_str(&cat(&["\"", names[sym::choose("key", names.len())], "\":\"", names[sym::choose("value", names.len())], "\""]));
    }
    js.push_str("}}");
    vfs::file("package.json", &js);
    vfs::maybe("a.js", &AF, "");
    vfs::file("d/package.json", "{\"main\":\"..\",\"browser\":{\"../a.js\":\"..\",\".\":\".\"}}");
    vfs::dir("node_modules/m");
    vfs::maybe("node_modules/m/index.js", &AF, "");
    vfs::commit();
    note_s("map", &js);
    let r = Resolver::new(ResolverOptions { browser_field: true, main_fields: sv(&["main", "browser"]), prefer_relative: sym::flag("prefer"), ..opts(&sv(&[".js"])) });
    let req = names[sym::choose("req", names.len())];
    let o = resolve(&r, &vfs::abs(""), req);
    note_kind("out", &o);
}
/// C23: imports maps whose targets lead to each other
#[no_mangle]
pub extern "C" fn check_C23_imports() {
    let keys = ["#a", "#b", "#a/*", "#*", "#b/"];
    let vals = ["#a", "#b", "#a/x", "#*", "#a/*", "#b/*", "m", "./a", "#b/", "#a/*/*", "w"];
    let mut js = String::from("{\"name\":\"w\",\"exports\":{\".\":\"./a\",\"./*\":\"./*\"},\"imports\":{");
    for i in 0..sym::param("entries", 2) as usize {
        if i > 0 {
            js.push(',');
        }
        js.push_str(&cat(&["\"", keys[sym::choose("key", keys.len())], "\":\"", vals[sym::choose("value", vals.len())], "\""]));
    }
    js.push_str("}}");
    vfs::file("package.json", &js);
    vfs::file("node_modules/m/package.json", "{\"imports\":{\"#a\":\"#a\"},\"main\":\"#a\"}");
    vfs::maybe("a", &AF, "");
    vfs::commit();
    note_s("map", &js);
    let r = Resolver::new(opts(&sv(&[".js"])));
    let req = ["#a", "#b", "#a/x", "#b/a/x", "#c", "m"][sym::choose("req", 6)];
    let o = resolve(&r, &vfs::abs(""), req);
    note_kind("out", &o);
}
/// C23: main fields that lead to directories with main fields
#[no_mangle]
pub extern "C" fn check_C23_main() {
    let vals = ["", ".", "./", "..", "../", "./lib", "lib/", "../lib", "./lib/..", "../lib/../lib", "./lib/lib", "../../p", "/", "./../p/lib"];
    for d in ["node_modules/p", "node_modules/p/lib"] {
        let a = vals[sym::choose("main", vals.len())];
        let b = vals[sym::choose("second", sym::param("second", 6) as usize)];
        vfs::file(&join(d, "package.json"), &cat(&["{\"main\":\"", a, "\",\"module\":\"", b, "\"}"]));
        note_s("main", &cat(&[a, " ", b]));
    }
    vfs::maybe("node_modules/p/lib/index.js", &AF, "");
    vfs::commit();
    let r = Resolver::new(ResolverOptions { main_fields: sv(&["main", "module"]), ..opts(&sv(&[".js"])) });
    let req = ["p", "p/lib", "./node_modules/p/lib/"][sym::choose("req", 3)];
    let o = resolve(&r, &vfs::abs(""), req);
    note_kind("out", &o);
}
/// C23: every mechanism leads to another
#[no_mangle]
pub extern "C" fn check_C23_mixed() {
    // alias -> imports -> browser -> main -> alias; tsconfig in front
    let t = ["m", "#m", "./m", "al", ".", "ts", "m/", "./"];
    let pick = |n: &str| t[sym::choose(n, sym::param("names", 5) as usize)];
    let al = pick("alias");
    let im = pick("imports");
    let br = pick("browser");
    let mn = pick("main");
    vfs::file("package.json", &cat(&["{\"name\":\"m\",\"imports\":{\"#m\":\"", im, "\"},\"browser\":{\"m\":\"", br, "\",\"./m\":\"", im, "\"},\"main\":\"", mn, "\"}"]));
    vfs::file("m/package.json", &cat(&["{\"main\":\"../", mn, "\"}"]));
    vfs::file("node_modules/m/package.json", &cat(&["{\"main\":\"", mn, "\",\"browser\":{\"./index.js\":\"", br, "\"}}"]));
    vfs::maybe("node_modules/m/index.js", &AF, "");
    let ts = sym::flag("tsconfig");
    vfs::file("tsconfig.json", "{\"extends\":\"ts\",\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"*\":[\"./*\",\"./m/*\"]}}}");
    vfs::commit();
    note_s("config", &cat(&[al, " ", im, " ", br, " ", mn]));
    let r = Resolver::new(ResolverOptions {
        alias: vec![("al".into(), AliasMap::Target(al.into())), ("ts".into(), AliasMap::Target("./tsconfig".into()))],
        browser_field: true,
        prefer_relative: sym::flag("prefer"),
        tsconfig: if ts { Some(vfs::abs("tsconfig.json").into()) } else { None },
        ..opts(&sv(&[".js", ".json"]))
    });
    let o = resolve(&r, &vfs::abs(""), ["m", "al", "#m", "./m"][sym::choose("req", 4)]);
    note_kind("out", &o);
}

// ------------------------------------------------------------------ C32
const BUILTINS: [&str; 67] = [
    "_http_agent", "_http_client", "_http_common", "_http_incoming", "_http_outgoing", "_http_server", "_stream_duplex", "_stream_passthrough", "_stream_readable", "_stream_transform",
    "_stream_wrap", "_stream_writable", "_tls_common", "_tls_wrap", "assert", "assert/strict", "async_hooks", "buffer", "child_process", "cluster", "console", "constants", "crypto", "dgram",
    "diagnostics_channel", "dns", "dns/promises", "domain", "events", "fs", "fs/promises", "http", "http2", "https", "inspector", "module", "net", "os", "path", "path/posix", "path/win32",
    "perf_hooks", "process", "punycode", "querystring", "readline", "repl", "stream", "stream/consumers", "stream/promises", "stream/web", "string_decoder", "sys", "timers", "timers/promises",
    "tls", "trace_events", "tty", "url", "util", "util/types", "v8", "vm", "wasi", "worker_threads", "zlib", "",
];
fn is_builtin(s: &[u8]) -> bool {
    let mut i = 0;
    while i < 66 {
        if s == BUILTINS[i].as_bytes() {
            return true;
        }
        i += 1;
    }
    false
}
/// C32: every name, and every name with one symbolic byte replaced, inserted or appended, or one removed
#[no_mangle]
pub extern "C" fn check_C32_edits() {
    let i = sym::choose("name", 67);
    let b = BUILTINS[i].as_bytes();
    let kind = sym::choose("edit", 4);
    let mut v = vec![];
    match kind {
        0 => v.extend_from_slice(b),
        1 => {
            sym::assume(!b.is_empty());
            let p = sym::choose("at", b.len());
            v.extend_from_slice(b);
            v[p] = sym::range("byte", 0, 0x7f);
        }
        2 => {
            let p = sym::choose("at", b.len() + 1);
            v.extend_from_slice(&b[..p]);
            v.push(sym::range("byte", 0, 0x7f));
            v.extend_from_slice(&b[p..]);
        }
        _ => {
            sym::assume(!b.is_empty());
            let p = sym::choose("at", b.len());
            v.extend_from_slice(&b[..p]);
            v.extend_from_slice(&b[p + 1..]);
        }
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let got = Resolver::is_build_in_module(&s);
    sym::note("got", &[got as u8]);
    sym::check(got == is_builtin(s.as_bytes()), "the predicate differs from the list of Node core modules");
}
/// C32: names with something before and after them, and in upper case
#[no_mangle]
pub extern "C" fn check_C32_around() {
    let b = BUILTINS[sym::choose("name", 67)];
    let pre = ["", "node:", "node:/", "node:node:", "NODE:", "node:internal/", "npm:", "bun:", "file:", "/", "./", "../", "@", "@types/", "_", "internal/", " ", "node_modules/", "/node_modules/", "\0"];
    let post = ["", "/", "/index", "/index.js", "/promises", "/strict", "/posix", ".js", ".mjs", "?x", "#x", "@1", " ", "/internal", "\0", "/..", "/."];
    let mut s = cat(&[pre[sym::choose("before", pre.len())], b, post[sym::choose("after", post.len())]]);
    if sym::flag("upper") {
        s = s.to_ascii_uppercase();
    }
    note_s("name", &s);
    let got = Resolver::is_build_in_module(&s);
    sym::note("got", &[got as u8]);
    sym::check(got == is_builtin(s.as_bytes()), "the predicate differs from the list of Node core modules");
}
/// C32: every string of at most n bytes
#[no_mangle]
pub extern "C" fn check_C32_short() {
    let n = sym::choose("n", sym::param("n", 2) as usize + 1);
    let mut v = vec![];
    for _ in 0..n {
        v.push(sym::range("byte", 0, 0x7f));
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let got = Resolver::is_build_in_module(&s);
    sym::note("got", &[got as u8]);
    sym::check(got == is_builtin(s.as_bytes()), "the predicate differs from the list of Node core modules");
}
