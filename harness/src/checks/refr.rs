//! Reference answers for the parts of resolution that need no package metadata.
use super::util::*;
use crate::vfs;

pub struct Ref<'a> {
    pub exts: &'a [String],
    pub enforce: bool,
    pub main_files: &'a [&'a str],
}
impl<'a> Ref<'a> {
    pub fn new(exts: &'a [String]) -> Self {
        Ref { exts, enforce: false, main_files: &["index"] }
    }
    /// the file a path names: itself, or with the first fitting extension
    pub fn file(&self, p: &str) -> Option<String> {
        if !self.enforce && vfs::is_file(p) {
            return Some(p.to_string());
        }
        for e in self.exts {
            let q = cat(&[p, e]);
            if vfs::is_file(&q) {
                return Some(q);
            }
        }
        None
    }
    pub fn dir(&self, p: &str) -> Option<String> {
        if !vfs::is_dir(p) {
            return None;
        }
        for m in self.main_files {
            if let Some(q) = self.file(&join(p, m)) {
                return Some(q);
            }
        }
        None
    }
    pub fn path(&self, p: &str) -> Option<String> {
        self.file(p).or_else(|| self.dir(p))
    }
    /// package request from `dir`: the nearest node_modules that serves it
    pub fn package(&self, dir: &str, req: &str) -> Option<String> {
        let mut d = dir.to_string();
        loop {
            if let Some(q) = self.path(&join(&join(&d, "node_modules"), req)) {
                return Some(q);
            }
            match parent(&d) {
                Some(p) => d = p,
                None => return None,
            }
        }
    }
}
pub fn join(a: &str, b: &str) -> String {
    if a.as_bytes()[a.len() - 1] == b'/' {
        cat(&[a, b])
    } else {
        cat(&[a, "/", b])
    }
}
/// parent of a normalised absolute path
pub fn parent(d: &str) -> Option<String> {
    let b = d.as_bytes();
    if b.len() <= 1 {
        return None;
    }
    let mut i = b.len();
    while b[i - 1] != b'/' {
        i -= 1;
    }
    Some(sub(d, 0, if i == 1 { 1 } else { i - 1 }))
}
pub fn sub(s: &str, a: usize, b: usize) -> String {
    unsafe { std::str::from_utf8_unchecked(&s.as_bytes()[a..b]) }.to_string()
}
