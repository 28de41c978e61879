//! What a request string means: C01, C03, C28, C29
use super::refr::*;
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("check_C01_ascii", check_C01_ascii),
    ("check_C01_utf8", check_C01_utf8),
    ("check_C03_place", check_C03_place),
];

/// (path, query, fragment) as the property states it
pub fn split(r: &[u8]) -> (usize, usize) {
    let n = r.len();
    let mut f = n;
    let mut i = 1;
    while i < n {
        if r[i] == b'#' {
            f = i;
            break;
        }
        i += 1;
    }
    let mut q = 0;
    while q < f && r[q] != b'?' {
        q += 1;
    }
    (q, f)
}

fn split_check(req: &str) {
    let (q, f) = split(req.as_bytes());
    let (path, query, frag) = (sub(req, 0, q), sub(req, q, f), sub(req, f, req.len()));
    let d = vfs::dir("d");
    vfs::file("d/index.js", "");
    vfs::file("index.js", "");
    let b = path.as_bytes();
    let dotty = b.len() == 0 || b == b"." || b == b"..";
    let internal = b.len() > 0 && b[0] == b'#';
    if internal {
        // the map shows what was looked up
        vfs::file("d/package.json", "{\"imports\":{\"#*\":\"./i*\"}}");
        let mut v = vec![b'i'];
        v.extend_from_slice(&b[1..]);
        vfs::add_named(d, &v, vfs::FILE, b"");
    } else if !dotty {
        vfs::add_named(d, b, vfs::FILE, b"");
    }
    vfs::commit();
    let r = Resolver::new(ResolverOptions { prefer_relative: true, ..Default::default() });
    let o = resolve_joined(&r, &vfs::abs("d"), req);
    note_out("out", &o);
    let exp = if b == b".." {
        vfs::abs("index.js")
    } else if dotty {
        vfs::abs("d/index.js")
    } else if internal {
        cat(&[&vfs::abs("d"), "/i", &sub(&path, 1, path.len())])
    } else {
        cat(&[&vfs::abs("d"), "/", &path])
    };
    if b == b"#" {
        // no key of an imports map
        sym::check(matches!(o, Out::Err(_)), "a lone # resolves");
        return;
    }
    match &o {
        Out::File { path: p, query: qq, fragment: ff } => {
            sym::check(*p == exp, "the path text looked up is not the part before query and fragment");
            sym::check(*qq == query, "the reported query is not the query of the request");
            sym::check(*ff == frag, "the reported fragment is not the fragment of the request");
        }
        _ => sym::check(false, "a request whose path text names an existing file failed"),
    }
}

/// C01: any ASCII request without "/"
#[no_mangle]
pub extern "C" fn check_C01_ascii() {
    let n = sym::fix(sym::range("len", 0, sym::param("n", 5) as u8) as usize);
    let mut v = vec![];
    for _ in 0..n {
        let c = sym::range("c", 1, 127);
        // one letter stands for all: the Windows-drive matcher keeps a state per letter
        sym::assume(c != b'/' && !c.is_ascii_uppercase() && !(c > b'a' && c <= b'z'));
        v.push(c);
    }
    let req = unsafe { String::from_utf8_unchecked(v) };
    split_check(&req);
}

/// C01: markers around multi-byte characters
#[no_mangle]
pub extern "C" fn check_C01_utf8() {
    let n = sym::param("n", 3) as usize;
    let n = sym::fix(sym::range("len", 1, n as u8) as usize);
    let mut v = vec![];
    for _ in 0..n {
        match sym::choose("tok", 5) {
            0 => v.push(b'?'),
            1 => v.push(b'#'),
            2 => {
                v.push(sym::range("b2", 0xc2, 0xdf));
                v.push(sym::range("b2c", 0x80, 0xbf));
            }
            3 => {
                v.push(0xe2);
                v.push(sym::range("b3c", 0x80, 0xbf));
                v.push(sym::range("b3d", 0x80, 0xbf));
            }
            _ => v.push(sym::one_of("asc", b"a.")),
        }
    }
    let req = unsafe { String::from_utf8_unchecked(v) };
    split_check(&req);
}

/// C03: which directory tree a request is looked up in
#[no_mangle]
pub extern "C" fn check_C03_place() {
    let n = sym::param("n", 4) as usize;
    let req = sym::string("req", 0, n, b"./a:C\\");
    let places = ["d/e", "d/e/node_modules", "d", "d/node_modules", "node_modules", "", "d/e/a"];
    vfs::dir("d/e");
    vfs::dir("d/e/node_modules");
    vfs::dir("d/node_modules");
    for p in places {
        for nm in ["a", ".a", "..a", "C:", "a:"] {
            let rel = if p.is_empty() { nm.to_string() } else { join(p, nm) };
            if p == "d/e/a" && nm != "a" {
                continue;
            }
            if rel == "d/e/a" {
                let n = vfs::maybe(&rel, &[vfs::ABSENT, vfs::FILE, vfs::DIR], "");
                let _ = n;
            } else if p != "d/e/a" {
                vfs::maybe(&rel, &[vfs::ABSENT, vfs::FILE], "");
            }
        }
    }
    vfs::file("d/e/index", "");
    vfs::file("d/index", "");
    vfs::commit();
    let none: Vec<String> = vec![];
    let r = Resolver::new(opts(&none));
    let base = vfs::abs("d/e");
    let o = resolve(&r, &base, &req);
    note_out("out", &o);
    let rf = Ref::new(&none);
    let b = req.as_bytes();
    let n = b.len();
    let exp = if n == 0
        || (n == 1 && b[0] == b'.')
        || (n == 2 && b[0] == b'.' && b[1] == b'.')
        || (n >= 2 && b[0] == b'.' && b[1] == b'/')
        || (n >= 3 && b[0] == b'.' && b[1] == b'.' && b[2] == b'/')
    {
        sym::cover("relative");
        rf.path(&join(&base, &req))
    } else if b[0] == b'/' {
        sym::cover("absolute");
        rf.path(&req)
    } else if n >= 2 && (b[0] == b'a' || b[0] == b'C') && b[1] == b':' && (n == 2 || b[2] == b'/' || b[2] == b'\\') {
        // a Windows drive path: no claim on where, but never a package
        sym::cover("drive");
        for k in ["d/e/node_modules", "d/node_modules", "node_modules"] {
            let pre = cat(&[&vfs::abs(k), "/"]);
            if let Out::File { path, .. } = &o {
                sym::check(!path.starts_with(&pre), "a drive path was looked up as a package");
            }
        }
        return;
    } else {
        sym::cover("package");
        rf.package(&base, &req)
    };
    expect(&o, &exp, true, "the request was looked up in the wrong place");
}
