//! Writes the modules of /repo's crate as they are declared there, each compiled in place and made
//! visible, so that the storage format can be reached and may use whatever it likes of the crate.
use std::fmt::Write;
use std::path::{Path, PathBuf};

/// `pub(crate) mod name;` -> `name`
fn declared(line: &str) -> Option<&str> {
    let mut rest = line.split("//").next().unwrap().trim();
    if let Some(r) = rest.strip_prefix("pub") {
        rest = r.trim_start();
        if rest.starts_with('(') {
            rest = rest[rest.find(')')? + 1..].trim_start();
        }
    }
    let name = rest.strip_prefix("mod ")?.strip_suffix(';')?.trim();
    if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
        Some(name)
    } else {
        None
    }
}

/// The text of a file of modules, with the modules it declares, which are looked for in `dir`,
/// written out in turn or given their paths.
fn expand(file: &Path, dir: &Path, is_root: bool) -> String {
    let text = std::fs::read_to_string(file).expect("module file");
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if t.starts_with("#![") || t.starts_with("//!") {
            continue;
        }
        let name = match declared(line) {
            Some(n) if !line.starts_with(' ') => n,
            _ => {
                writeln!(out, "{}", line).unwrap();
                continue;
            }
        };
        let sub = dir.join(name);
        let mut path = dir.join(format!("{}.rs", name));
        if !path.exists() {
            path = sub.join("mod.rs");
        }
        let has_modules = std::fs::read_to_string(&path)
            .map_or(false, |t| t.lines().any(|l| !l.starts_with(' ') && declared(l).is_some()));
        if is_root || has_modules {
            writeln!(out, "pub mod {} {{\n{}\n}}", name, expand(&path, &sub, false)).unwrap();
        } else {
            writeln!(out, "#[path = {:?}]\npub mod {};", path.display().to_string(), name).unwrap();
        }
    }
    out
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=/repo/rust-src");
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let src = Path::new("/repo/rust-src/src");
    std::fs::write(out.join("modules.rs"), expand(&src.join("lib.rs"), src, true)).unwrap();
}
