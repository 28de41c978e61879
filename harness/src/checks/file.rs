//! Files, extensions, directories, node_modules: C04 - C07, C15 - C17, C28, C29
use super::refr::*;
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;
use std::path::Path;

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("check_C04", check_C04),
    ("check_C04_names", check_C04_names),
    ("check_C05", check_C05),
    ("check_C06_fields", check_C06_fields),
    ("check_C06_nested", check_C06_nested),
    ("check_C07", check_C07), ("check_C07_inside", check_C07_inside), ("check_C07_linked", check_C07_linked),
    ("check_C15", check_C15),
    ("check_C16", check_C16),
    ("check_C17_norm", check_C17_norm),
    ("check_C28", check_C28),
    ("check_C28_same", check_C28_same),
    ("check_C29", check_C29),
];
const AFD: [u8; 3] = [vfs::ABSENT, vfs::FILE, vfs::DIR];
const AF: [u8; 2] = [vfs::ABSENT, vfs::FILE];
const AD: [u8; 2] = [vfs::ABSENT, vfs::DIR];

/// an ordered selection of distinct members
fn ordering(name: &str, all: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let n = lo + sym::choose(name, hi - lo + 1);
    let mut out = vec![];
    let mut used = 0u32;
    for _ in 0..n {
        let i = sym::choose(name, all.len());
        sym::assume(used >> i & 1 == 0);
        used |= 1 << i;
        out.push(all[i].to_string());
    }
    out
}

/// C04: exact file, else first extension whose candidate is a regular file
#[no_mangle]
pub extern "C" fn check_C04() {
    let exts = [".js", ".a", ".b"];
    let order = ordering("ext", &exts, 0, 3);
    vfs::dir("d");
    vfs::maybe("d/f", &AFD, "");
    for e in exts {
        vfs::maybe(&cat(&["d/f", e]), &AFD, "");
    }
    vfs::maybe("d/f/index", &AF, "");
    vfs::commit();
    let r = Resolver::new(opts(&order));
    let req = ["./f", "../d/f"][sym::choose("req", 2)];
    let o = resolve(&r, &vfs::abs("d"), req);
    note_out("out", &o);
    let base = vfs::abs("d/f");
    let mut exp: Option<String> = None;
    if vfs::is_file(&base) {
        exp = Some(base.clone());
    } else {
        for e in &order {
            let p = cat(&[&base, e]);
            if vfs::is_file(&p) {
                exp = Some(p);
                break;
            }
        }
        let ix = cat(&[&base, "/index"]);
        if exp.is_none() && vfs::is_file(&ix) {
            exp = Some(ix);
        }
    }
    expect(&o, &exp, false, "expected the first candidate that is a regular file");
}

/// C04: symbolic request names, extensions appended to the text whatever it is
#[no_mangle]
pub extern "C" fn check_C04_names() {
    let lists: [&[&str]; 4] = [&[".a", ".b"], &[".b", ".a", "a"], &[".a.a", ".a"], &["."]];
    let order = sv(lists[sym::choose("ext", lists.len())]);
    vfs::dir("d");
    for n in ["a", "a.", "a..", "a.a", "a.b", "a..a", "a..b", "a.a.a", ".a", ".b", "..a", "..a.a", "...", "....b", "A", "A.a", "Aa", "\u{e9}", "\u{e9}.a", " ", " .a", "-.b"] {
        vfs::maybe(&join("d", n), &AF, "");
    }
    vfs::commit();
    let name = sym::string("name", 1, sym::param("n", 3) as usize, b"a.A -~");
    sym::assume(name != "." && name != "..");
    // "~" stands for a letter of two bytes
    let mut req = String::from("./");
    for c in name.as_bytes() {
        if *c == b'~' {
            req.push('\u{e9}');
        } else {
            req.push(*c as char);
        }
    }
    let r = Resolver::new(opts(&order));
    let o = resolve(&r, &vfs::abs("d"), &req);
    note_s("req", &req);
    note_out("out", &o);
    let exp = Ref::new(&order).path(&join(&vfs::abs("d"), &sub(&req, 2, req.len())));
    expect(&o, &exp, false, "expected the first candidate that is a regular file");
}

/// C05: enforced extensions
#[no_mangle]
pub extern "C" fn check_C05() {
    let order = ordering("ext", &["", ".a", ".b"], 0, 3);
    let enf = [None, Some(true), Some(false)][sym::choose("enforce", 3)];
    vfs::dir("d");
    let place = sym::choose("place", 2);
    let dir = if place == 0 { "d" } else { "d/node_modules" };
    for n in ["f", "f.a", "f.a.a", "f.b", "f.b.a"] {
        vfs::maybe(&join(dir, n), &AF, "");
    }
    vfs::maybe(&join(dir, "g"), &AD, "");
    for n in ["index", "index.a", "index.b"] {
        vfs::maybe(&join(&join(dir, "g"), n), &AF, "");
    }
    vfs::commit();
    let r = Resolver::new(ResolverOptions { enforce_extension: enf, ..opts(&order) });
    let name = ["f", "f.a", "g"][sym::choose("req", 3)];
    let req = if place == 0 { cat(&["./", name]) } else { name.to_string() };
    let o = resolve(&r, &vfs::abs("d"), &req);
    note_out("out", &o);
    let enforce = match enf {
        Some(b) => b,
        None => order.iter().any(|e| e.is_empty()),
    };
    let rf = Ref { enforce, ..Ref::new(&order) };
    let exp = rf.path(&join(&vfs::abs(dir), name));
    expect(&o, &exp, false, "a file was accepted against the extension rules");
}

/// the entry point of a directory with (or without) its own description
struct Entry<'a> {
    rf: Ref<'a>,
    fields: &'a [String],
    /// (directory, field, value)
    pkgs: Vec<(String, String, String)>,
}
impl<'a> Entry<'a> {
    fn path(&self, p: &str) -> Option<String> {
        self.rf.file(p).or_else(|| self.dir(p))
    }
    fn dir(&self, p: &str) -> Option<String> {
        if !vfs::is_dir(p) {
            return None;
        }
        for f in self.fields {
            for (d, k, v) in &self.pkgs {
                if k == f && *d == p {
                    let v = if v.starts_with("./") { sub(v, 2, v.len()) } else { v.to_string() };
                    let v = if v.ends_with('/') { sub(&v, 0, v.len() - 1) } else { v };
                    if let Some(q) = self.path(&join(p, &v)) {
                        return Some(q);
                    }
                }
            }
        }
        self.rf.dir(p)
    }
}
fn json_field(out: &mut String, k: &str, v: &str) {
    if out.as_bytes()[out.len() - 1] != b'{' {
        out.push_str(",");
    }
    out.push_str("\"");
    out.push_str(k);
    out.push_str("\":");
    out.push_str(v);
}

/// C06: two main fields in every order and value
#[no_mangle]
pub extern "C" fn check_C06_fields() {
    let fields = ordering("field", &["main", "module"], 0, 2);
    let files = ordering("mainfile", &["index", "m"], 0, 2);
    let vals = ["\"./a\"", "\"a\"", "\"sub\"", "\"./sub/\"", "7", "\"nope\"", "null"];
    let mut js = String::from("{");
    let mut pkgs = vec![];
    let at = ["p", "node_modules/p"][sym::choose("at", 2)];
    let pd = vfs::abs(at);
    for k in ["main", "module"] {
        let i = sym::choose("value", vals.len() + 1);
        if i < vals.len() {
            json_field(&mut js, k, vals[i]);
            if vals[i].as_bytes()[0] == b'"' {
                pkgs.push((pd.clone(), k.to_string(), sub(vals[i], 1, vals[i].len() - 1)));
            }
        }
    }
    js.push_str("}");
    vfs::file(&join(at, "package.json"), &js);
    vfs::maybe(&join(at, "a"), &AF, "");
    vfs::maybe(&join(at, "a.js"), &AF, "");
    vfs::maybe(&join(at, "sub"), &AD, "");
    vfs::maybe(&join(at, "sub/index.js"), &AF, "");
    vfs::maybe(&join(at, "index.js"), &AF, "");
    vfs::maybe(&join(at, "m"), &AF, "");
    vfs::commit();
    let exts = sv(&[".js"]);
    let r = Resolver::new(ResolverOptions { main_fields: fields.clone(), main_files: files.clone(), ..opts(&exts) });
    let req = if at == "p" { ["./p", "./p/"][sym::choose("slash", 2)] } else { "p" };
    let o = resolve(&r, &vfs::abs(""), req);
    note_out("out", &o);
    let mf: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
    let e = Entry { rf: Ref { exts: &exts, enforce: false, main_files: &mf }, fields: &fields, pkgs };
    expect(&o, &e.dir(&pd), false, "wrong entry point of a directory");
}

/// C06: a main field leading to a directory with its own description, and one further up
#[no_mangle]
pub extern "C" fn check_C06_nested() {
    let fields = sv(&["main"]);
    let exts = sv(&[".js"]);
    let up = ["", "sub", "sub/deep", "x.js"];
    let at = ["p", "node_modules/p"][sym::choose("at", 2)];
    let mut pkgs = vec![];
    let mut put = |dir: &str, vals: &[&str], nm: &str| {
        let i = sym::choose(nm, vals.len() + 1);
        if i < vals.len() {
            let d = if dir.is_empty() { at.to_string() } else { join(at, dir) };
            if vals[i].is_empty() {
                vfs::file(&join(&d, "package.json"), "{}");
            } else {
                vfs::file(&join(&d, "package.json"), &cat(&["{\"main\":\"", vals[i], "\"}"]));
                pkgs.push((vfs::abs(&d), "main".to_string(), vals[i].to_string()));
            }
        }
    };
    put("", &up, "p");
    put("sub", &["", "./deep/", "x.js", "x"], "sub");
    put("sub/deep", &["", "x"], "deep");
    for f in ["x.js", "index.js", "sub/x.js", "sub/index.js", "sub/deep/x.js", "sub/deep/index.js"] {
        vfs::maybe(&join(at, f), &AF, "");
    }
    vfs::dir(&join(at, "sub/deep"));
    vfs::commit();
    let r = Resolver::new(ResolverOptions { main_fields: fields.clone(), ..opts(&exts) });
    let tail = ["", "/sub", "/sub/deep"][sym::choose("into", 3)];
    let req = if at == "p" { cat(&["./p", tail]) } else { cat(&["p", tail]) };
    let o = resolve(&r, &vfs::abs(""), &req);
    note_out("out", &o);
    let e = Entry { rf: Ref { exts: &exts, enforce: false, main_files: &["index"] }, fields: &fields, pkgs };
    expect(&o, &e.path(&cat(&[&vfs::abs(at), tail])), false, "wrong entry point of a nested directory");
}

/// C07: the nearest node_modules that can serve the request
#[no_mangle]
pub extern "C" fn check_C07() {
    let exts = sv(&[".js"]);
    let (name, subs): (&str, &[&str]) = [("p", &["", "/x", "/x/y"][..]), ("@s/p", &["", "/x"][..])][sym::choose("scoped", 2)];
    let tail = subs[sym::choose("sub", subs.len())];
    let levels = ["a/b/node_modules", "a/node_modules", "node_modules"];
    vfs::dir("a/b");
    for l in levels {
        let k = [vfs::ABSENT, vfs::DIR, vfs::FILE][sym::choose("nm", 3)];
        vfs::add(l, k, b"");
        let p = join(l, name);
        if name != "p" {
            vfs::maybe(&join(l, "@s"), &AD, "");
        }
        vfs::maybe(&p, &AFD, "");
        vfs::maybe(&cat(&[&p, ".js"]), &AF, "");
        if tail.is_empty() {
            vfs::maybe(&cat(&[&p, "/index.js"]), &AF, "");
        } else {
            vfs::maybe(&cat(&[&p, "/x"]), &AFD, "");
            vfs::maybe(&cat(&[&p, "/x.js"]), &AF, "");
            vfs::maybe(&cat(&[&p, "/x/y.js"]), &AF, "");
        }
    }
    // never consulted
    vfs::file("a/b/p", "");
    vfs::file("a/p.js", "");
    vfs::file("p/index.js", "");
    vfs::commit();
    let r = Resolver::new(opts(&exts));
    let req = cat(&[name, tail]);
    let o = resolve(&r, &vfs::abs("a/b"), &req);
    note_out("out", &o);
    let exp = Ref::new(&exts).package(&vfs::abs("a/b"), &req);
    expect(&o, &exp, false, "not the nearest node_modules that serves the request");
}

/// C07: asked for from inside node_modules
#[no_mangle]
pub extern "C" fn check_C07_inside() {
    let exts = sv(&[".js"]);
    let from = ["node_modules/p", "node_modules/p/lib", "node_modules/@s/p", "node_modules/@s/p/node_modules/q/lib", "a/node_modules/p", "node_modules", "node_modules/p/node_modules", "gone/node_modules/p/x"][sym::choose("from", 8)];
    let name = ["q", "@s/q"][sym::choose("scoped", 2)];
    if !from.as_bytes().starts_with(b"gone") {
        vfs::dir(from);
    }
    for l in [
        "node_modules/p/lib/node_modules",
        "node_modules/p/node_modules",
        "node_modules/@s/p/node_modules",
        "node_modules/@s/node_modules",
        "node_modules/node_modules",
        "node_modules/p/node_modules/node_modules",
        "a/node_modules/node_modules",
        "a/node_modules",
        "node_modules",
        "gone/node_modules/p/node_modules",
        "node_modules/@s/p/node_modules/q/lib/node_modules",
    ] {
        // only the directories that lie on the way
        let d = &l.as_bytes()[..l.len() - 12];
        let on_way = d.is_empty() || from.as_bytes().starts_with(&d[..d.len() - 1]);
        if on_way {
            vfs::maybe(&join(l, &cat(&[name, "/index.js"])), &AF, "");
        }
    }
    vfs::commit();
    let r = Resolver::new(opts(&exts));
    let o = resolve(&r, &vfs::abs(from), name);
    note_out("out", &o);
    let exp = Ref::new(&exts).package(&vfs::abs(from), name);
    expect(&o, &exp, false, "not the nearest node_modules that serves the request");
}

fn normal(p: &str) -> bool {
    let b = p.as_bytes();
    if b.is_empty() || b[0] != b'/' {
        return false;
    }
    let mut s = 1;
    let mut i = 1;
    while i <= b.len() {
        if i == b.len() || b[i] == b'/' {
            let c = &b[s..i];
            if c.is_empty() || c == b"." || c == b".." {
                return false;
            }
            s = i + 1;
        }
        i += 1;
    }
    true
}
/// C15: every kind of node, both settings of symlinks, a directory entry point, a package
#[no_mangle]
pub extern "C" fn check_C15() {
    let k = [vfs::ABSENT, vfs::FILE, vfs::DIR, vfs::FIFO, vfs::LINK];
    let lt = ["t", "t/f", "../d/f", "f", "nowhere"];
    let exts = sv(&[".js"]);
    vfs::dir("d");
    vfs::dir("d/t");
    vfs::file("d/t/f", "");
    vfs::add("d/f", k[sym::choose("kf", 5)], lt[sym::choose("lt", 5)].as_bytes());
    vfs::add("d/f.js", k[sym::choose("kfj", 5)], b"t/f");
    vfs::maybe("d/f/index.js", &[vfs::ABSENT, vfs::FILE, vfs::DIR, vfs::FIFO], "");
    vfs::maybe("d/t/index.js", &AFD, "");
    vfs::commit();
    let sl = sym::flag("symlinks");
    let r = Resolver::new(ResolverOptions { symlinks: sl, ..opts(&exts) });
    let rq = ["./f", "./f/", "./t/../f", "../d/./f", ".", "./t/", "./f/../t/f", "./f/index"];
    let o = resolve(&r, &vfs::abs("d"), rq[sym::choose("req", rq.len())]);
    note_out("out", &o);
    if let Out::File { path, .. } = &o {
        sym::cover("found");
        sym::check(normal(path), "the result is not a normalised absolute path");
        sym::check(vfs::is_file(path), "the result is not an existing regular file");
        if sl {
            sym::check(vfs::canonical(path).map_or(false, |c| c == *path), "the result is not a real path");
        }
    }
}

/// C16: links to files and directories, chains, broken links and loops
#[no_mangle]
pub extern "C" fn check_C16() {
    let exts = sv(&[".js"]);
    vfs::dir("d");
    let ft = ["t/a.js", "g.js", "/r/d/t/a.js", "nowhere", "f.js"];
    let k = sym::choose("f", 6);
    if k == 5 {
        vfs::file("d/f.js", "");
    } else {
        vfs::link("d/f.js", ft[k]);
    }
    let g = sym::choose("g", 3);
    if g == 0 {
        vfs::file("d/g.js", "");
    } else if g == 1 {
        vfs::link("d/g.js", "../x/h.js");
    } else {
        vfs::link("d/g.js", "f.js");
    }
    vfs::file("x/h.js", "");
    vfs::file("d/t/a.js", "");
    vfs::file("d/t/u/v/w.js", "");
    vfs::maybe("d/t/index.js", &AF, "");
    let dl = ["t", "../x", "/r/d/t", "l2"];
    vfs::link("d/l", dl[sym::choose("l", 4)]);
    vfs::link("d/l2", ["t", "l"][sym::choose("l2", 2)]);
    vfs::link("node_modules/p", ["../d/t", "../d/l", "../x"][sym::choose("nm", 3)]);
    vfs::commit();
    let on = Resolver::new(ResolverOptions { symlinks: true, ..opts(&exts) });
    let off = Resolver::new(ResolverOptions { symlinks: false, ..opts(&exts) });
    let rq = ["./f", "./g.js", "./l", "./l/a", "./l/./h.js", "./l2/a.js", "p", "p/a", "p/h", "./t//a", "./l/u/v/w", "p/u/v/w.js", "./l/../f", "./l2/../l/../g.js", "../g", "./w"];
    let i = sym::choose("req", rq.len());
    let base = vfs::abs(match i {
        14 => "d/l",
        15 => "d/l2/u/v",
        _ => "d",
    });
    let a = resolve(&on, &base, rq[i]);
    let b = resolve(&off, &base, rq[i]);
    note_out("on", &a);
    note_out("off", &b);
    let rf = Ref::new(&exts);
    let found = if rq[i].as_bytes()[0] == b'.' {
        rf.path(&String::from_utf8(lexical(join(&base, rq[i]).as_bytes())).unwrap())
    } else {
        rf.package(&base, rq[i])
    };
    match found {
        None => {
            sym::check(is_err(&a), "symlinks on: found what is not there");
            sym::check(is_err(&b), "symlinks off: found what is not there");
        }
        Some(p) => {
            let lex = String::from_utf8(lexical(p.as_bytes())).unwrap();
            sym::check(is_file_at(&b, &lex), "symlinks off: not the path through which the file was found");
            sym::check(is_file_at(&a, &vfs::canonical(&p).unwrap()), "symlinks on: not the real path of the file found");
        }
    }
}

/// the lexical normal form of an absolute path
pub fn lexical(p: &[u8]) -> Vec<u8> {
    let mut st: Vec<(usize, usize)> = vec![];
    let mut s = 0;
    let mut i = 0;
    while i <= p.len() {
        if i == p.len() || p[i] == b'/' {
            let c = &p[s..i];
            if c.is_empty() || c == b"." {
            } else if c == b".." {
                st.pop();
            } else {
                st.push((s, i));
            }
            s = i + 1;
        }
        i += 1;
    }
    let mut o = vec![];
    for (a, b) in st {
        o.push(b'/');
        o.extend_from_slice(&p[a..b]);
    }
    if o.is_empty() {
        o.push(b'/');
    }
    o
}
/// C17: every absolute path of n bytes (any byte but NUL)
#[no_mangle]
pub extern "C" fn check_C17_norm() {
    use std::os::unix::ffi::OsStrExt;
    let n = sym::fix(sym::range("len", 0, sym::param("n", 6) as u8) as usize);
    let mut v = vec![b'/'];
    for _ in 0..n {
        v.push(sym::range("c", 1, 255));
    }
    let r = Resolver::normalize_path_without_link(Path::new(std::ffi::OsStr::from_bytes(&v)));
    let got = r.as_os_str().as_bytes().to_vec();
    sym::note("in", &v);
    sym::note("out", &got);
    let exp = lexical(&v);
    sym::check(got == exp, "not the lexical normal form");
    let again = Resolver::normalize_path_without_link(&r);
    sym::check(again.as_os_str().as_bytes() == &exp[..], "normalisation is not idempotent");
}

/// C28: prefer_relative
#[no_mangle]
pub extern "C" fn check_C28() {
    let exts = sv(&[".js"]);
    let rq = ["p", "p/x", "@s/p", ".h", "p.js"];
    let req = rq[sym::choose("req", rq.len())];
    let base = if req == "p.js" { "p" } else { req };
    for l in ["d", "d/node_modules", "node_modules"] {
        if base.contains('/') {
            vfs::maybe(&join(l, if base == "p/x" { "p" } else { "@s" }), &AD, "");
        }
        vfs::maybe(&join(l, base), &AFD, "");
        vfs::maybe(&cat(&[l, "/", base, ".js"]), &AFD, "");
        vfs::maybe(&cat(&[l, "/", base, "/index.js"]), &AF, "");
    }
    vfs::dir("d");
    vfs::commit();
    let on = sym::flag("prefer");
    let r = Resolver::new(ResolverOptions { prefer_relative: on, ..opts(&exts) });
    let o = resolve(&r, &vfs::abs("d"), req);
    note_out("out", &o);
    let rf = Ref::new(&exts);
    let mut exp = None;
    if on {
        exp = rf.path(&join(&vfs::abs("d"), req));
    }
    if exp.is_none() {
        exp = rf.package(&vfs::abs("d"), req);
    }
    expect(&o, &exp, false, "prefer_relative must try the relative file first and the package second");
}

/// C29: the message of a failure
#[no_mangle]
pub extern "C" fn check_C29() {
    let heads = ["./x", "../x", "x", "@s/x", "/nope/x", "x/y", ".", "", "../../../x", "#x", "C:/x", "./x/"];
    let h = heads[sym::choose("head", heads.len())];
    let mut req = h.to_string();
    if sym::flag("query") {
        req.push('?');
        req.push(sym::range("q", b' ', b'~') as char);
    }
    if sym::flag("fragment") {
        req.push('#');
        req.push(sym::range("f", b' ', b'~') as char);
    }
    vfs::dir("d/e");
    if sym::flag("nm") {
        vfs::dir("d/node_modules");
        if sym::flag("pkg") {
            vfs::dir("d/node_modules/x");
        }
    }
    if sym::flag("dirx") {
        vfs::dir("d/e/x");
    }
    let pj = sym::choose("pkgjson", 3);
    if pj > 0 {
        vfs::file("package.json", ["{}", "{\"main\":\"./nothing\",\"browser\":{\"y\":\"./z\"}}"][pj - 1]);
    }
    vfs::commit();
    let mut op = opts(&sv(&[".js"]));
    match sym::choose("mode", 4) {
        1 => op.prefer_relative = true,
        2 => op.alias = vec![("x".into(), AliasMap::Target("./alias-target".into())), ("q".into(), AliasMap::Ignored)],
        3 => op.browser_field = true,
        _ => {}
    }
    let r = Resolver::new(op);
    let dir = vfs::abs("d/e");
    let o = resolve(&r, &dir, &req);
    note_out("out", &o);
    match &o {
        Out::Err(e) => {
            let m = cat(&["Resolve '", &req, "' failed in '", &dir, "'"]);
            sym::check(*e == m, "the error does not name the request and the directory");
        }
        _ => sym::check(false, "nothing exists, but the request resolved"),
    }
}

/// C28: with the option on a package request answers as "./request" does with the option off, or else as
/// itself; a request of another kind answers as with the option off
#[no_mangle]
pub extern "C" fn check_C28_same() {
    let doc = [
        "",
        "{\"imports\":{\"#x\":\"./h.js\",\"#p\":\"p\"},\"browser\":{\"p\":\"./h.js\",\"./k.js\":false,\"q\":false}}",
        "{\"browser\":{\"./p.js\":\"./h.js\",\"p\":\"q\"},\"name\":\"w\",\"exports\":{\".\":\"./h.js\",\"./x\":\"./gone.js\"}}",
        "{",
    ][sym::choose("doc", 4)];
    if !doc.is_empty() {
        vfs::file("d/package.json", doc);
    }
    vfs::file("d/h.js", "");
    vfs::file("node_modules/q/index.js", "");
    vfs::file("node_modules/k/index.js", "");
    vfs::file("node_modules/p/package.json", ["{\"main\":\"./m.js\"}", "{\"exports\":{\".\":\"./m.js\",\"./x\":\"./m.js\"}}"][sym::choose("pdoc", 2)]);
    vfs::file("node_modules/p/m.js", "");
    for f in ["d/p.js", "d/p/package.json", "d/p/index.js", "d/k.js", "d/#x.js", "d/#p.js", "d/@s/a.js", "node_modules/@s/a.js", "d/r/h.js", "d/a:.js", "node_modules/p/x.js", "d/w.js", "d/..q.js"] {
        vfs::maybe(f, &AF, "{\"main\":\"./gone\"}");
    }
    // the absolute path, below d
    if sym::flag("below") {
        vfs::file(&cat(&["d", &vfs::abs("d/h.js")]), "");
        vfs::file(&cat(&["d", &vfs::abs("d/g.js")]), "");
    }
    vfs::commit();
    let k = sym::choose("req", 22);
    let rq = ["p", "p?q", "p#f", "p/x", "p/x?a#b", "@s/a", "k", "q", "k.js", "", ".", "./", "..", "./p", "#x", "#p", "#gone", "../d/k", "a:", "w", "w/x", "..q"];
    let abs = sym::choose("abs", 3);
    let req = match abs {
        0 => rq[k].to_string(),
        1 => {
            sym::assume(k == 0);
            vfs::abs("d/h.js")
        }
        _ => {
            sym::assume(k == 0);
            vfs::abs("d/g")
        }
    };
    let browser = sym::flag("browser");
    let mk = |on: bool| Resolver::new(ResolverOptions { prefer_relative: on, browser_field: browser, ..opts(&sv(&[".js"])) });
    let d = vfs::abs("d");
    let on = resolve(&mk(true), &d, &req);
    note_out("on", &on);
    let mut exp = None;
    if abs == 0 && matches!(k, 0 | 1 | 2 | 3 | 4 | 5 | 6 | 7 | 8 | 19 | 20 | 21) {
        let o = resolve(&mk(false), &d, &cat(&["./", &req]));
        if !is_err(&o) {
            sym::cover("relative");
            exp = Some(o);
        }
    }
    let exp = exp.unwrap_or_else(|| resolve(&mk(false), &d, &req));
    note_out("expected", &exp);
    sym::check(on == exp, "prefer_relative must try the relative file first and change nothing else");
}

/// C07: directories of modules and packages that are links
#[no_mangle]
pub extern "C" fn check_C07_linked() {
    let exts = sv(&[".js"]);
    let (name, up) = [("p", ".."), ("@s/p", "../..")][sym::choose("scoped", 2)];
    vfs::dir("w/d");
    for (i, l) in ["w/node_modules", "node_modules"].iter().enumerate() {
        // where the modules really are
        let st = ["s0", "s1"][i];
        let real = match sym::choose("nm", 3) {
            0 => {
                vfs::dir(l);
                l.to_string()
            }
            1 => {
                vfs::dir(st);
                vfs::link(l, if i == 0 { "../s0" } else { "s1" });
                st.to_string()
            }
            _ => {
                vfs::link(l, "nowhere");
                continue;
            }
        };
        let depth = if real == "w/node_modules" { "../" } else { "" };
        let p = join(&real, name);
        let pk = ["k0", "k1"][i];
        match sym::choose("package", 5) {
            0 => (),
            1 => {
                vfs::maybe(&join(&p, "index.js"), &AF, "");
                vfs::maybe(&join(&p, "x.js"), &AF, "");
            }
            2 => {
                vfs::maybe(&join(pk, "index.js"), &AF, "");
                vfs::maybe(&join(pk, "x.js"), &AF, "");
                vfs::dir(pk);
                vfs::link(&p, &cat(&[up, "/", depth, pk]));
            }
            3 => {
                vfs::link(&p, "gone");
            }
            _ => {
                vfs::file(&join(pk, "index.js"), "");
                vfs::link(&cat(&[&p, ".js"]), &cat(&[up, "/", depth, pk, "/index.js"]));
            }
        }
    }
    vfs::commit();
    let r = Resolver::new(opts(&exts));
    let req = cat(&[name, ["", "/x"][sym::choose("sub", 2)]]);
    let o = resolve(&r, &vfs::abs("w/d"), &req);
    note_out("out", &o);
    let exp = Ref::new(&exts).package(&vfs::abs("w/d"), &req);
    if exp.is_some() {
        sym::cover("found");
    }
    expect(&o, &exp, true, "not the nearest node_modules that serves the request");
}
