#![allow(dead_code, unused)]
use nodejs_resolver::*;
use std::path::{Path, PathBuf};
fn root() -> PathBuf {
    PathBuf::from(std::env::args().nth(1).unwrap())
}
fn file(p: &str, c: &str) {
    let p = root().join(p);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, c).unwrap();
}
fn get(r: &Resolver, dir: &str, req: &str) -> String {
    match r.resolve(&root().join(dir), req) {
        Ok(ResolveResult::Info(i)) => format!("{}{}{}", i.path.strip_prefix(root()).unwrap_or(&i.path).display(), i.request.query, i.request.fragment),
        Ok(ResolveResult::Ignored) => "ignored".into(),
        Err(_) => "error".into(),
    }
}
fn want(got: String, exp: &str) {
    if got != exp {
        eprintln!("got {got:?}, expected {exp:?}");
        std::process::exit(1);
    }
}
