//! `gen prepare ID --out DIR`: generate the schemas of a run, compile what
//! the compiler under test makes of them, and link the program that drives it.

use crate::comp::*;
use crate::rust::*;
use model::cases;
use model::schema::Schema;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vpbt::json::{obj, J};
use vpbt::run::*;
use vpbt::{Ctx, Part, Prop, Src};

/// One family of schemas, compiled on its own: the case a failure is shrunk to.
fn compile_case(id: &str, src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let ss = cases::make(id, src);
    let text: Vec<String> = ss.iter().map(|s| s.text()).collect();
    cx.describe(|| clip(&text.join("// ----\n")));
    all_compile(&ss)
}

macro_rules! compile_fns {
    ($($f:ident $id:literal),*) => {
        $(fn $f(src: &mut Src, cx: &mut Ctx) -> Result<(), String> { compile_case($id, src, cx) })*
        pub fn props() -> Vec<Prop> {
            vec![$(Prop {
                id: $id,
                known: vec![],
                parts: vec![Part { name: "compile", run: $f, quick: 100, thorough: 1000, debug_only: false }],
                rule: "",
                assumptions: &[],
            }),*]
        }
    };
}
compile_fns!(c17 "C17", c18 "C18", c19 "C19", c20 "C20", c21 "C21", c22 "C22", c23 "C23");

fn lib(dir: &Path, i: usize) -> PathBuf {
    dir.join(format!("libp{}.rlib", i))
}

pub fn main(id: &str, dir: &Path, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let a = Args::from_env();
    let Some(id) = cases::IDS.iter().find(|x| **x == id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    std::fs::create_dir_all(dir).unwrap();
    let corpus = cases::corpus(id, a.seed, &a.tier);
    let per = 8;
    let shards: Vec<Vec<usize>> = (0..corpus.len()).collect::<Vec<_>>().chunks(per).map(|c| c.to_vec()).collect();
    // index of the first schema of each family
    let mut at = vec![];
    let mut n = 0;
    for c in &corpus {
        at.push(n);
        n += c.len();
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let bad: std::sync::Mutex<Vec<usize>> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= shards.len() || !bad.lock().unwrap().is_empty() {
                    break;
                }
                if !shard(dir, i, &shards[i], &at, &corpus) {
                    bad.lock().unwrap().push(i);
                }
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort();
    for i in &bad {
        for k in &shards[*i] {
            let mut src = cases::corpus_src(id, a.seed, *k);
            let mut cx = Ctx::default();
            let p = props().into_iter().find(|p| p.id == *id).unwrap();
            let run = p.parts[0].run;
            if let Err(mut msg) = run_case(run, &mut src, &mut cx) {
                let choices = shrink(src.rec.clone(), Duration::from_secs(25), |c| {
                    let mut src = Src::replay(c.to_vec());
                    match run_case(run, &mut src, &mut Ctx::default()) {
                        Ok(()) => None,
                        Err(m) => {
                            msg = m;
                            Some(src.rec)
                        }
                    }
                });
                let mut cx = Ctx::default();
                cx.want_desc = true;
                let _ = run_case(run, &mut Src::replay(choices.clone()), &mut cx);
                let found = obj(vec![
                    ("part", J::from("compile")),
                    ("index", J::from(*k as u64)),
                    ("message", J::from(msg)),
                    ("case", cx.desc.map(J::from).unwrap_or(J::Null)),
                    ("choices", J::Arr(choices.iter().map(|c| J::from(*c)).collect())),
                ]);
                let path = write_replay(verif, id, "gen", &a, &found);
                write_evidence(
                    verif,
                    id,
                    &a,
                    *k as u64 + 1,
                    *k as u64 + 1,
                    "every case: a schema whose code is compiled, before any value",
                    vec![],
                    vec![],
                    &[],
                    t0.elapsed().as_secs_f64(),
                    true,
                );
                println!("VIOLATION property={} replay={}", id, path.display());
                return 1;
            }
        }
    }
    if !bad.is_empty() {
        eprintln!("a set of schemas does not compile, but each of them does");
        return 2;
    }
    // the program
    let mut m = String::from("fn main() { model::cases::main(");
    m.push_str(&format!("\"{}\", {}, \"{}\", vec![", id, a.seed, a.tier));
    for (i, sh) in shards.iter().enumerate() {
        for k in sh {
            for v in 0..corpus[*k].len() {
                m.push_str(&format!("&p{}::g{}::GLUE, ", i, at[*k] + v));
            }
        }
    }
    m.push_str("]) }\n");
    let f = dir.join("main.rs");
    std::fs::write(&f, m).unwrap();
    let mut c = rustc();
    for i in 0..shards.len() {
        c.arg("--extern").arg(format!("p{}={}", i, lib(dir, i).display()));
    }
    c.args(["--edition", "2018", "--crate-type", "bin", "--crate-name", "drive", "-o"]).arg(dir.join("drive")).arg(&f);
    let o = c.output().unwrap();
    if !o.status.success() {
        eprintln!("linking failed:\n{}", String::from_utf8_lossy(&o.stderr));
        return 2;
    }
    eprintln!("{}: {} schemas compiled in {:.1} s", id, n, t0.elapsed().as_secs_f64());
    0
}

/// One library; false if its code is at fault.
fn shard(dir: &Path, i: usize, ks: &[usize], at: &[usize], corpus: &[Vec<Schema>]) -> bool {
    let mut text = String::new();
    for k in ks {
        for (v, s) in corpus[*k].iter().enumerate() {
            match catch(|| must(&s.text())) {
                Ok(Ok(code)) => text.push_str(&modules(s, &code, at[*k] + v)),
                _ => return false,
            }
        }
    }
    let f = dir.join(format!("p{}.rs", i));
    std::fs::write(&f, text).unwrap();
    let mut c: Command = rustc();
    c.args(["--edition", "2018", "--crate-type", "rlib", "-C", "codegen-units=2", "--crate-name"])
        .arg(format!("p{}", i))
        .arg("-o")
        .arg(lib(dir, i))
        .arg(&f)
        .stdin(Stdio::null());
    if i % 2 == 1 {
        // as in a release build
        c.args(["-C", "debug-assertions=off"]);
    }
    let o = c.output().unwrap_or_else(|e| {
        eprintln!("cannot run rustc: {}", e);
        std::process::exit(2)
    });
    if o.status.success() {
        return true;
    }
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if o.status.code() != Some(1) || !err.contains("error") {
        eprintln!("rustc failed: {:?}\n{}", o.status, err);
        std::process::exit(2);
    }
    false
}

/// Seed, tier and part of a replay file.
pub fn info(file: &str) -> i32 {
    let Some(j) = std::fs::read_to_string(file).ok().and_then(|t| J::parse(&t).ok()) else {
        eprintln!("{}: no replay file", file);
        return 2;
    };
    let seed = j.get("seed").and_then(|x| x.int()).unwrap_or(1);
    let tier = j.get("tier").and_then(|x| x.str()).unwrap_or("quick");
    let part = j.get("found").and_then(|x| x.get("part")).and_then(|x| x.str()).unwrap_or("");
    println!("{} {} {}", seed, tier, part);
    0
}
