//! The text of the crate's dependencies, put under the contracts of vshadow.rs.
//!
//! `/*@dep CRATE FILE | ANCHOR | FN | from=to ... @ proof text */` before a function whose body is
//! `{ unimplemented!() }` takes the body from the registry's source of the locked version of CRATE:
//! the first FN (optionally preceded by an impl header) after ANCHOR, with the macro variables
//! replaced.  For CRATE core, alloc or std it is the source of the toolchain's library.  Where the source is not there, the function becomes an assumption instead.
use serde_json::{json, Value};
use std::fs;
use std::path::{Path, PathBuf};

fn locked(repo: &Path, name: &str) -> Option<String> {
    let lock = fs::read_to_string(repo.join("Cargo.lock")).ok()?;
    let at = lock.find(&format!("name = \"{name}\"\n"))?;
    let rest = &lock[at..];
    let v = rest.find("version = \"")? + 11;
    Some(rest[v..].split('"').next()?.to_string())
}

/// the library source of the toolchain that builds the crate
fn sysroot(repo: &Path) -> Option<PathBuf> {
    let o = std::process::Command::new("rustc").args(["--print", "sysroot"]).current_dir(repo)
        .env_remove("RUSTUP_TOOLCHAIN").output().ok()?;
    Some(PathBuf::from(String::from_utf8(o.stdout).ok()?.trim()).join("lib/rustlib/src/rust/library"))
}

fn source(repo: &Path, name: &str, file: &str) -> Option<(PathBuf, String)> {
    if matches!(name, "core" | "std" | "alloc") {
        static ROOT: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
        let p = ROOT.get_or_init(|| sysroot(repo)).as_ref()?.join(name).join(file);
        let t = fs::read_to_string(&p).ok()?;
        return Some((p, t));
    }
    let version = locked(repo, name)?;
    let home = std::env::var_os("CARGO_HOME").map(PathBuf::from)
        .or_else(|| std::env::var_os("HOME").map(|h| PathBuf::from(h).join(".cargo")))?;
    for d in fs::read_dir(home.join("registry/src")).ok()? {
        let p = d.ok()?.path().join(format!("{name}-{version}")).join(file);
        if let Ok(t) = fs::read_to_string(&p) {
            return Some((p, t));
        }
    }
    None
}

/// end of the block that opens at `at`
fn balanced(t: &str, at: usize) -> Option<usize> {
    let b = t.as_bytes();
    let mut depth = 0;
    let mut i = at;
    while i < b.len() {
        match b[i] {
            b'/' if b.get(i + 1) == Some(&b'/') => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
            }
            b'{' => depth += 1,
            b'}' => {
                depth -= 1;
                if depth == 0 {
                    return Some(i + 1);
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}

fn body(t: &str, anchor: &str, f: &str) -> Option<(String, usize)> {
    let mut at = t.find(anchor)? + anchor.len();
    let f = f.trim();
    let (header, name) = match f.strip_prefix("impl").and_then(|_| f.rfind(" fn ")) {
        Some(i) => (Some(&f[..i]), &f[i + 1..]),
        None => (None, f),
    };
    if let Some(h) = header {
        at += t[at..].find(h)? + h.len();
    }
    at += t[at..].find(name)? + name.len();
    let open = at + t[at..].find('{')?;
    let end = balanced(t, open)?;
    Some((t[open..end].to_string(), t[..open].matches('\n').count() + 1))
}

/// the body without a function nested in it, which is put under contract by itself
fn without(b: String, f: &str) -> String {
    let Some(at) = b.find(f) else { return b };
    let Some(open) = b[at..].find('{') else { return b };
    let Some(end) = balanced(&b, at + open) else { return b };
    let start = b[..at].rfind(|c| c == '}' || c == ';').map_or(at, |i| i + 1);
    format!("{}{}", &b[..start], &b[end..])
}

pub fn expand(text: &str, repo: &Path, log: &mut Vec<Value>) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("/*@dep ") {
        out.push_str(&rest[..i]);
        let j = i + rest[i..].find("*/").expect("unclosed @dep");
        let spec = &rest[i + 7..j];
        rest = &rest[j + 2..];
        let (spec, proof) = match spec.split_once(" @ ") {
            Some((a, b)) => (a, b.trim()),
            None => (spec, ""),
        };
        // edits that need spaces stand on lines of their own, each opened by a bar
        let (head, tail) = spec.split_once('\n').unwrap_or((spec, ""));
        let mut edits: Vec<String> = Vec::new();
        for l in tail.lines() {
            match (l.trim_start().strip_prefix("| "), edits.last_mut()) {
                (Some(e), _) => edits.push(e.to_string()),
                (None, Some(e)) => { e.push('\n'); e.push_str(l); }
                (None, None) => {}
            }
        }
        let part: Vec<&str> = head.trim_end().trim_end_matches("|").split(" | ").map(str::trim).collect();
        let (krate, file) = part[0].split_once(' ').expect("@dep CRATE FILE");
        const HOLE: &str = "{ unimplemented!() }";
        let k = rest.find(HOLE).expect("@dep without a hole");
        let found = source(repo, krate, file).and_then(|(p, t)| body(&t, part[1], part[2]).map(|(b, l)| (p, b, l)));
        match found {
            Some((p, mut b, line)) => {
                for e in &edits {
                    if let Some((from, to)) = e.split_once(" ==> ") {
                        if !b.contains(from.trim()) {
                            log.push(json!({"file": p.display().to_string(), "line": line, "kind": "dependency-edit-missing", "what": from.trim()}));
                        }
                        b = b.replace(from.trim(), to.trim());
                    } else if let Some(f) = e.trim().strip_prefix("without ") {
                        b = without(b, f);
                    }
                }
                for s in part.get(3).copied().unwrap_or("").trim_end_matches(" @").split_whitespace() {
                    if let Some((from, to)) = s.split_once('=') {
                        b = b.replace(from, to);
                    }
                }
                out.push_str(&rest[..k]);
                if !proof.is_empty() {
                    b = format!("{{ proof {{ {proof} }} {}", &b[1..]);
                }
                out.push_str(&b);
                log.push(json!({"file": p.display().to_string(), "line": line, "kind": "dependency-text",
                    "what": format!("{krate} {}", part[2])}));
            }
            None => {
                out.push_str("#[verifier::external_body] ");
                out.push_str(&rest[..k + HOLE.len()]);
                log.push(json!({"file": format!("{krate} {file}"), "line": 0, "kind": "dependency-assumed", "what": part[2]}));
            }
        }
        rest = &rest[k + HOLE.len()..];
    }
    out.push_str(rest);
    out
}
