//! C20: the order in which a hash table iterates is arbitrary
use super::util::*;
use crate::{sym, vfs};
use nodejs_resolver::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[("check_C20_paths", check_C20_paths), ("check_C20_maps", check_C20_maps)];

/// the same request, with tables in one and in any order
fn both(make: &dyn Fn() -> Resolver, dir: &str, req: &str, options: bool) {
    let one = resolve(&make(), &vfs::abs(dir), req);
    note_out("out", &one);
    sym::any_hash(options);
    // natively every table has its own seed
    let rounds = if sym::is_native() { 64 } else { 1 };
    for _ in 0..rounds {
        let r = make();
        sym::any_hash(!options);
        let two = resolve(&r, &vfs::abs(dir), req);
        sym::check(one == two, "the answer depends on the order of a hash table");
    }
}
/// C20: tsconfig paths with overlapping keys
#[no_mangle]
pub extern "C" fn check_C20_paths() {
    let keys = ["a/*", "a*", "*", "a/b", "*b", "*/b"];
    let n = sym::param("keys", 3) as usize;
    let mut js = String::from("{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{");
    let first = sym::choose("first", keys.len());
    for i in 0..n {
        let k = keys[(first + i * (1 + sym::choose("step", 2))) % keys.len()];
        if i > 0 {
            js.push(',');
        }
        js.push_str(&cat(&["\"", k, "\":[\"", ["x", "y", "z", "u"][i], "\"]"]));
    }
    js.push_str("}}}");
    let split = sym::flag("extends");
    if split {
        vfs::file("w/base.json", &js);
        vfs::file("w/tsconfig.json", "{\"extends\":\"./base.json\",\"compilerOptions\":{\"paths\":{\"ab*\":[\"u\"]}}}");
    } else {
        vfs::file("w/tsconfig.json", &js);
    }
    for f in ["w/x.js", "w/y.js", "w/z.js", "w/u.js"] {
        vfs::file(f, "");
    }
    vfs::commit();
    note_s("config", &js);
    let req = ["a/b", "ab", "b"][sym::choose("req", 3)];
    let make = || Resolver::new(ResolverOptions { tsconfig: Some(vfs::abs("w/tsconfig.json").into()), ..opts(&sv(&[".js"])) });
    both(&make, "w", req, false);
}
/// C20: browser, imports, exports, conditions
#[no_mangle]
pub extern "C" fn check_C20_maps() {
    let kind = sym::choose("kind", 4);
    let keys: [[&str; 4]; 4] = [["./a", "./a.js", "a", "./a/index.js"], ["./a*", "./a", "./*", "./a/"], ["#a*", "#*", "#a/*", "#a/"], ["p", "node", "q", "default"]];
    let n = sym::param("keys", 2) as usize;
    let first = sym::choose("first", 4);
    let mut m = String::from("{");
    for i in 0..n {
        if i > 0 {
            m.push(',');
        }
        m.push_str(&cat(&["\"", keys[kind][(first + i) % 4], "\":\"./", ["x", "y", "z"][i], ".js\""]));
    }
    m.push('}');
    let js = match kind {
        0 => cat(&["{\"browser\":", &m, "}"]),
        1 => cat(&["{\"name\":\"w\",\"exports\":", &m, "}"]),
        2 => cat(&["{\"imports\":", &m, "}"]),
        _ => {
            // alone, or within another condition or default
            let m = match sym::choose("within", 3) {
                0 => m.to_string(),
                1 => cat(&["{\"node\":", &m, "}"]),
                _ => cat(&["{\"default\":", &m, "}"]),
            };
            cat(&["{\"imports\":{\"#c\":", &m, "}}"])
        }
    };
    vfs::file("w/package.json", &js);
    for f in ["w/x.js", "w/y.js", "w/z.js", "w/a.js", "w/a/index.js", "node_modules/a.js"] {
        vfs::file(f, "");
    }
    vfs::commit();
    note_s("map", &js);
    let make = || {
        let mut o = opts(&sv(&[".js"]));
        o.browser_field = kind == 0;
        if kind == 3 {
            o.condition_names = ["p", "q", "node"].iter().map(|s| s.to_string()).collect();
        }
        Resolver::new(o)
    };
    let reqs: &[&str] = [&["./a", "a", "./a.js", "./a/"][..], &["w/a", "w/ab", "w/a/b"], &["#a/b", "#ab", "#b"], &["#c"]][kind];
    let req = reqs[sym::choose("req", reqs.len())];
    // the tables of the options, or those of the resolution
    both(&make, "w", req, kind == 3 && sym::flag("options"));
}
