//! Text-level preparation of the module: functions that the executor models become declarations.
use std::io::Write;

pub fn intercepted(name: &str) -> bool {
    !matches!(crate::ext::classify(name), crate::ext::B::Unknown)
}

fn def_name(l: &str) -> Option<&str> {
    let at = l.find('@')?;
    let r = &l[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"')?;
        Some(&q[..e])
    } else {
        let e = r.find('(')?;
        Some(&r[..e])
    }
}

pub fn prep(inp: &str, outp: &str) {
    let s = String::from_utf8_lossy(&std::fs::read(inp).unwrap()).into_owned();
    let mut o = std::io::BufWriter::new(std::fs::File::create(outp).unwrap());
    let mut skip = false;
    for l in s.lines() {
        if skip {
            if l == "}" {
                skip = false;
            }
            continue;
        }
        if l.starts_with("define ") {
            if let Some(n) = def_name(l) {
                if intercepted(n) {
                    // return type, name and parameter list without attributes after it
                    let at = l.find('@').unwrap();
                    let head = &l[7..at];
                    let mut rest = &l[at..];
                    // find the closing parenthesis of the parameter list
                    let start = rest.find('(').unwrap();
                    let mut d = 0i32;
                    let mut end = rest.len();
                    for (i, c) in rest[start..].char_indices() {
                        if c == '(' {
                            d += 1
                        } else if c == ')' {
                            d -= 1;
                            if d == 0 {
                                end = start + i + 1;
                                break;
                            }
                        }
                    }
                    rest = &rest[..end];
                    let head: Vec<&str> = head
                        .split(' ')
                        .filter(|w| !matches!(*w, "internal" | "private" | "hidden" | "dso_local" | "linkonce_odr" | "weak_odr" | "weak" | "unnamed_addr" | "local_unnamed_addr" | "protected" | "available_externally"))
                        .collect();
                    writeln!(o, "declare {}{}", head.join(" "), rest).unwrap();
                    skip = true;
                    continue;
                }
            }
        }
        writeln!(o, "{}", l).unwrap();
    }
}
