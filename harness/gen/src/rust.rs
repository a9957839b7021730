//! Handing generated code to rustc.

use crate::comp::*;
use crate::emit::Emit;
use model::schema::*;
use std::io::BufRead;
use std::path::{Path, PathBuf};
use std::process::Command;
use vpbt::json::J;

/// `gen externs`: from cargo's messages on stdin, the libraries to link with.
pub fn externs_main() -> i32 {
    let mut out: Vec<String> = vec![];
    for l in std::io::stdin().lock().lines() {
        let Ok(j) = J::parse(&l.unwrap()) else { continue };
        if j.get("reason").and_then(|x| x.str()) != Some("compiler-artifact") {
            continue;
        }
        let name = j.get("target").and_then(|t| t.get("name")).and_then(|x| x.str()).unwrap_or("");
        if !["butte", "model", "vpbt"].contains(&name) {
            continue;
        }
        for f in j.get("filenames").and_then(|x| x.arr()).unwrap_or(&[]) {
            let f = f.str().unwrap_or("");
            if f.ends_with(".rlib") {
                out.push(format!("{}={}", name, f));
            }
        }
    }
    println!("{}", out.join(";"));
    if out.len() == 3 {
        0
    } else {
        2
    }
}

pub fn rustc() -> Command {
    let e = std::env::var("VPBT_EXTERNS").unwrap_or_default();
    if e.is_empty() {
        eprintln!("VPBT_EXTERNS is not set");
        std::process::exit(2);
    }
    let mut c = Command::new(std::env::var("VPBT_RUSTC").unwrap_or_else(|_| "rustc".into()));
    for x in e.split(';') {
        c.arg("--extern").arg(x);
        let (_, p) = x.split_once('=').unwrap();
        let d = Path::new(p).parent().unwrap();
        c.arg("-L").arg(format!("dependency={}", d.display()));
        c.arg("-L").arg(format!("dependency={}", d.join("deps").display()));
    }
    c.args(["-Awarnings", "-C", "debuginfo=0", "--error-format=short"]);
    c
}

/// The modules for a schema: the code under test and the code that drives it.
pub fn modules(s: &Schema, code: &str, k: usize) -> String {
    let e = Emit {
        s,
        root: format!("crate::s{}", k),
    };
    format!("pub mod s{} {{\n{}\n}}\npub mod g{} {{\n{}}}\n", k, code, k, e.code())
}

/// Do these modules compile? The inner error is rustc's.
pub fn compiles(source: &str, dir: &Path) -> Result<(), String> {
    let f = dir.join("lib.rs");
    std::fs::write(&f, source).unwrap();
    let mut c = rustc();
    c.args(["--edition", "2018", "--crate-type", "lib", "--crate-name", "probe", "--emit=metadata", "-o"])
        .arg(dir.join("libprobe.rmeta"))
        .arg(&f);
    let o = c.output().unwrap_or_else(|e| {
        eprintln!("cannot run rustc: {}", e);
        std::process::exit(2)
    });
    if o.status.success() {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if o.status.code() != Some(1) || !err.contains("error") {
        eprintln!("rustc failed: {:?}\n{}", o.status, err);
        std::process::exit(2);
    }
    Err(explain(&err, source))
}

/// rustc's first messages, with the text they are about.
pub fn explain(err: &str, source: &str) -> String {
    let lines: Vec<&str> = source.lines().collect();
    let mut out = String::new();
    for l in err.lines().filter(|l| l.contains("error")).take(4) {
        let l: String = l.chars().take(400).collect();
        out.push_str(&l);
        out.push('\n');
        let mut p = l.split(':');
        let _ = p.next();
        if let (Some(Ok(line)), Some(Ok(col))) = (p.next().map(|x| x.parse::<usize>()), p.next().map(|x| x.parse::<usize>())) {
            if let Some(t) = lines.get(line.wrapping_sub(1)) {
                let c: Vec<char> = t.chars().collect();
                let a = col.saturating_sub(80);
                let s: String = c.iter().skip(a).take(200).collect();
                out.push_str("    ");
                out.push_str(&s);
                out.push('\n');
            }
        }
    }
    out
}

pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Dir {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("vpbt-gen-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// All of these schemas give code that compiles and has the types it should have.
pub fn all_compile(ss: &[Schema]) -> Result<(), String> {
    let mut src = String::new();
    let mut each = vec![];
    for (k, s) in ss.iter().enumerate() {
        let text = s.text();
        let code = must(&text)?;
        let m = modules(s, &code, k);
        src.push_str(&m);
        each.push((m, text));
    }
    let dir = Dir::new();
    let Err(e) = compiles(&src, &dir.0) else { return Ok(()) };
    for (m, text) in each {
        if let Err(e) = compiles(&m, &dir.0) {
            return Err(format!("the generated code does not compile as the schema demands:\n{}{}", e, clip(&text)));
        }
    }
    Err(format!("the generated code does not compile: {}", e))
}
