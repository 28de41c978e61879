//! Shared pieces of the checks.
use crate::{sym, vfs};
use nodejs_resolver::*;
use std::path::Path;

#[derive(PartialEq, Clone, Debug)]
pub enum Out {
    File { path: String, query: String, fragment: String },
    Ignored,
    Err(String),
}

/// the root prefix removed, for comparing the native with the symbolic run
pub fn strip(s: &str) -> String {
    let r = vfs::abs("");
    let mut o = String::new();
    let (sb, rb) = (s.as_bytes(), r.as_bytes());
    let mut i = 0;
    let mut v: Vec<u8> = vec![];
    while i < sb.len() {
        // only where a path begins
        let begins = i == 0 || sb[i - 1] == b' ' || sb[i - 1] == b'\'' || sb[i - 1] == b'"';
        if begins && sb.len() - i >= rb.len() && &sb[i..i + rb.len()] == rb && (sb.len() - i == rb.len() || !(sb[i + rb.len()].is_ascii_alphanumeric() || sb[i + rb.len()] == b'.')) {
            v.extend_from_slice(b"<R>");
            i += rb.len();
        } else {
            v.push(sb[i]);
            i += 1;
        }
    }
    o.push_str(unsafe { std::str::from_utf8_unchecked(&v) });
    o
}

pub fn resolve(r: &Resolver, dir: &str, request: &str) -> Out {
    out_of(r.resolve(Path::new(dir), request))
}
fn bytes_of(p: &Path) -> String {
    unsafe { std::str::from_utf8_unchecked(std::os::unix::ffi::OsStrExt::as_bytes(p.as_os_str())) }.to_string()
}
fn out_of(o: RResult<ResolveResult>) -> Out {
    match o {
        Ok(ResolveResult::Info(i)) => Out::File { path: bytes_of(&i.path), query: i.request.query.to_string(), fragment: i.request.fragment.to_string() },
        Ok(ResolveResult::Ignored) => Out::Ignored,
        Err(e) => Out::Err(e),
    }
}
/// the same, and what `join` makes of a result is its path, query and fragment
pub fn resolve_joined(r: &Resolver, dir: &str, request: &str) -> Out {
    let o = r.resolve(Path::new(dir), request);
    if let Ok(ResolveResult::Info(i)) = &o {
        let (p, q, f) = (bytes_of(&i.path), i.request.query.to_string(), i.request.fragment.to_string());
        let mut e = p;
        e.push_str(&q);
        e.push_str(&f);
        crate::sym::check(bytes_of(&i.join()) == e, "join() is not path, query and fragment");
    }
    out_of(o)
}
pub fn note_out(k: &str, o: &Out) {
    match o {
        Out::File { path, query, fragment } => {
            let mut s = String::from("F ");
            // the text of a path may contain the root again
            let r = vfs::abs("");
            if path.starts_with(r.as_str()) {
                s.push_str("<R>");
                s.push_str(&path[r.len()..]);
            } else {
                s.push_str(path);
            }
            s.push_str(" ");
            s.push_str(query);
            s.push_str(" ");
            s.push_str(fragment);
            sym::note(k, s.as_bytes());
        }
        Out::Ignored => sym::note(k, b"I"),
        Out::Err(e) => {
            let mut s = String::from("E ");
            s.push_str(&strip(e));
            sym::note(k, s.as_bytes());
        }
    }
}
/// the same without the text of an error, which may contain any bytes
pub fn note_kind(k: &str, o: &Out) {
    match o {
        Out::Err(_) => sym::note(k, b"E"),
        _ => note_out(k, o),
    }
}
pub fn cat(parts: &[&str]) -> String {
    let mut s = String::new();
    for p in parts {
        s.push_str(p);
    }
    s
}
pub fn is_file_at(o: &Out, p: &str) -> bool {
    match o {
        Out::File { path, .. } => path == p,
        _ => false,
    }
}
pub fn is_err(o: &Out) -> bool {
    matches!(o, Out::Err(_))
}
pub fn sv(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// expected: Some(p): the file at p (its real path when `real`), None: an error
pub fn expect(o: &Out, exp: &Option<String>, real: bool, msg: &str) {
    match exp {
        Some(p) => {
            let p = if real { vfs::canonical(p).unwrap() } else { p.clone() };
            sym::check(is_file_at(o, &p), msg)
        }
        None => sym::check(is_err(o), msg),
    }
}
pub fn opts(exts: &[String]) -> ResolverOptions {
    ResolverOptions { extensions: exts.to_vec(), ..Default::default() }
}
pub fn note_s(k: &str, s: &str) {
    sym::note(k, strip(s).as_bytes())
}
