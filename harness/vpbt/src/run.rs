//! Running properties: worker processes, crash confirmation, shrinking,
//! replay files, evidence.

use crate::json::{obj, J};
use crate::src::{hash_bytes, mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

pub struct Part {
    pub name: &'static str,
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    /// Only in the profile with debug assertions.
    pub debug_only: bool,
}

/// A defect that is on record: `run` fails as long as it is there.
pub struct Known {
    pub key: &'static str,
    pub run: fn() -> Result<(), String>,
}

pub struct Prop {
    pub id: &'static str,
    pub parts: Vec<Part>,
    pub known: Vec<Known>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Ctx {
    pub want_desc: bool,
    pub desc: Option<String>,
    labels: Vec<&'static str>,
    nontrivial: Option<u64>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    /// Count this case as non-trivial; `key` tells it apart from others.
    pub fn nontrivial(&mut self, key: u64) {
        self.nontrivial = Some(key);
    }
    pub fn nontrivial_bytes(&mut self, key: &[u8]) {
        self.nontrivial = Some(hash_bytes(key));
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 3000 {
                let mut n = 3000;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.desc = Some(s);
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        } else {
            old(info)
        }
    }));
}

/// Run code that may panic; the panic's message if it did.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())
    })
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match catch(|| f(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    }
}

pub fn case_seed(seed: u64, id: &str, part: &str, profile: &str, idx: u64) -> u64 {
    let h = hash_bytes(format!("{}/{}/{}", id, part, profile).as_bytes());
    mix(mix(seed, h), idx)
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn limit_memory(bytes: u64) {
    // RLIMIT_AS
    unsafe {
        setrlimit(9, &[bytes, bytes]);
    }
}

#[derive(Clone)]
struct Found {
    part: usize,
    idx: u64,
    choices: Vec<u64>,
    msg: String,
}

pub struct Args {
    pub tier: String,
    pub seed: u64,
    pub profile: String,
}

impl Args {
    pub fn from_env() -> Args {
        Args {
            tier: match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => "thorough".into(),
                _ => "quick".into(),
            },
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1),
            profile: std::env::var("VPBT_PROFILE").unwrap_or_else(|_| {
                if cfg!(debug_assertions) {
                    "debug".into()
                } else {
                    "release".into()
                }
            }),
        }
    }
}

fn flag(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

pub fn main(props: Vec<Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        "worker" => worker(find(&props, &args[1]), &args),
        "case" => one_case(find(&props, &args[1]), &args),
        "drive" => drive(find(&props, &args[1]), &args),
        "replay" => replay(&props, &args),
        _ => {
            eprintln!("usage: (list|worker ID|case ID|drive ID|replay FILE) ...");
            2
        }
    };
    std::process::exit(code);
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

struct Shared {
    next: AtomicU64,
    fail: Mutex<Option<Found>>,
    lowest: AtomicU64,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    labels: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<(u64, String)>,
}

fn cases_of(p: &Part, tier: &str) -> u64 {
    let scale: f64 = std::env::var("VPBT_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let n = if tier == "thorough" { p.thorough } else { p.quick };
    ((n as f64) * scale).ceil() as u64
}

fn worker(prop: &Prop, args: &[String]) -> i32 {
    let out = PathBuf::from(flag(args, "--out").expect("--out"));
    let a = Args::from_env();
    limit_memory(20 << 30);
    let threads = std::env::var("VPBT_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8usize);
    let status = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .read(true)
        .open(out.with_extension("status"))
        .unwrap();
    let mut total = Stats::default();
    let mut found: Option<Found> = None;
    let mut part_counts = Vec::new();
    for (pi, part) in prop.parts.iter().enumerate() {
        if part.debug_only && !cfg!(debug_assertions) {
            continue;
        }
        let n = cases_of(part, &a.tier);
        let sh = Shared {
            next: AtomicU64::new(0),
            fail: Mutex::new(None),
            lowest: AtomicU64::new(u64::MAX),
        };
        let all: Mutex<Stats> = Mutex::new(Stats::default());
        let step = (n / 5).max(1);
        std::thread::scope(|s| {
            for t in 0..threads {
                let sh = &sh;
                let all = &all;
                let status = &status;
                let a = &a;
                let out = &out;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut st = Stats::default();
                        loop {
                            let start = sh.next.fetch_add(16, Ordering::Relaxed);
                            if start >= n || start > sh.lowest.load(Ordering::Relaxed) {
                                break;
                            }
                            for idx in start..(start + 16).min(n) {
                                if idx > sh.lowest.load(Ordering::Relaxed) {
                                    break;
                                }
                                let mut mark = [0u8; 16];
                                mark[..8].copy_from_slice(&(pi as u64 + 1).to_le_bytes());
                                mark[8..].copy_from_slice(&idx.to_le_bytes());
                                let _ = status.write_all_at(&mark, t as u64 * 16);
                                let seed = case_seed(a.seed, prop.id, part.name, &a.profile, idx);
                                let mut src = Src::random(seed);
                                let mut ctx = Ctx {
                                    want_desc: idx % step == step / 2,
                                    ..Ctx::default()
                                };
                                let r = run_case(part.run, &mut src, &mut ctx);
                                st.evals += 1;
                                for l in ctx.labels.drain(..) {
                                    *st.labels.entry(l.to_string()).or_default() += 1;
                                }
                                if let Some(h) = ctx.nontrivial {
                                    st.nontrivial += 1;
                                    st.hashes.insert(mix(h, pi as u64));
                                    if let Some(d) = ctx.desc.take() {
                                        st.samples.push((idx, d));
                                    }
                                }
                                if let Err(msg) = r {
                                    let mut f = sh.fail.lock().unwrap();
                                    if f.as_ref().map_or(true, |g| idx < g.idx) {
                                        *f = Some(Found {
                                            part: pi,
                                            idx,
                                            choices: src.rec.clone(),
                                            msg,
                                        });
                                        sh.lowest.store(idx, Ordering::Relaxed);
                                        // on record, should another case not end
                                        write_choices(&out.with_extension("failed"), &src.rec);
                                        let _ = std::fs::write(out.with_extension("part"), part.name);
                                    }
                                }
                            }
                        }
                        let _ = status.write_all_at(&[0u8; 16], t as u64 * 16);
                        let mut all = all.lock().unwrap();
                        all.evals += st.evals;
                        all.nontrivial += st.nontrivial;
                        for (k, v) in st.labels {
                            *all.labels.entry(k).or_default() += v;
                        }
                        all.hashes.extend(st.hashes);
                        all.samples.extend(st.samples);
                    })
                    .unwrap();
            }
        });
        let st = all.into_inner().unwrap();
        part_counts.push((part.name.to_string(), J::from(st.evals)));
        total.evals += st.evals;
        total.nontrivial += st.nontrivial;
        for (k, v) in st.labels {
            *total
                .labels
                .entry(if prop.parts.len() > 1 {
                    format!("{}: {}", part.name, k)
                } else {
                    k
                })
                .or_default() += v;
        }
        total.hashes.extend(st.hashes);
        let mut samples = st.samples;
        samples.sort();
        samples.truncate(3);
        for (i, s) in samples {
            total.samples.push((i, format!("[{}] {}", part.name, s)));
        }
        if let Some(f) = sh.fail.into_inner().unwrap() {
            found = Some(f);
            break;
        }
    }
    let mut doc = vec![
        ("evaluations", J::from(total.evals)),
        ("nontrivial", J::from(total.nontrivial)),
        ("parts", J::Obj(part_counts)),
        (
            "labels",
            J::Obj(
                total
                    .labels
                    .into_iter()
                    .map(|(k, v)| (k, J::from(v)))
                    .collect(),
            ),
        ),
        (
            "samples",
            J::Arr(total.samples.into_iter().map(|(_, s)| J::from(s)).collect()),
        ),
    ];
    let mut hb = Vec::with_capacity(total.hashes.len() * 8);
    for h in &total.hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(out.with_extension("hashes"), hb).unwrap();
    let mut code = 0;
    if let Some(f) = found {
        let part = &prop.parts[f.part];
        // In case shrinking crashes the process, the unshrunk case is on record.
        let write_found = |f: &Found, desc: Option<String>, base: &[(&str, J)]| {
            let mut d: Vec<(&str, J)> = base.iter().map(|(k, v)| (*k, v.clone())).collect();
            d.push((
                "found",
                obj(vec![
                    ("part", J::from(part.name)),
                    ("index", J::from(f.idx)),
                    ("message", J::from(f.msg.clone())),
                    ("case", desc.map(J::from).unwrap_or(J::Null)),
                    (
                        "choices",
                        J::Arr(f.choices.iter().map(|c| J::from(*c)).collect()),
                    ),
                ]),
            ));
            std::fs::write(&out, obj(d).print()).unwrap();
        };
        write_found(&f, None, &doc);
        let budget = Duration::from_secs(if a.tier == "thorough" { 60 } else { 12 });
        let mut msg = f.msg.clone();
        let mut tries = 0u64;
        let choices = shrink(f.choices.clone(), budget, |c| {
            // shows the driver that this goes on
            tries += 1;
            let mut mark = [0u8; 16];
            mark[0] = 1;
            mark[8..].copy_from_slice(&tries.to_le_bytes());
            let _ = status.write_all_at(&mark, 0);
            let mut src = Src::replay(c.to_vec());
            let mut ctx = Ctx::default();
            match run_case(part.run, &mut src, &mut ctx) {
                Ok(()) => None,
                Err(m) => {
                    msg = m;
                    Some(src.rec)
                }
            }
        });
        let _ = status.write_all_at(&[0u8; 16], 0);
        let mut src = Src::replay(choices.clone());
        let mut ctx = Ctx {
            want_desc: true,
            ..Ctx::default()
        };
        let r = run_case(part.run, &mut src, &mut ctx);
        let g = Found {
            part: f.part,
            idx: f.idx,
            choices,
            msg: r.err().unwrap_or(msg),
        };
        write_found(&g, ctx.desc, &doc);
        code = 1;
    } else {
        doc.push(("found", J::Null));
        std::fs::write(&out, obj(doc).print()).unwrap();
    }
    code
}

/// Edit the choice sequence while `fails` says the case still fails. `fails`
/// returns the choices the case really used.
pub fn shrink(
    start: Vec<u64>,
    budget: Duration,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let t0 = Instant::now();
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut best = match fails(&start) {
        Some(c) => c,
        None => return start,
    };
    loop {
        let before = best.clone();
        // delete chunks
        for size in [256usize, 64, 32, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(size);
            loop {
                if t0.elapsed() > budget {
                    return best;
                }
                if i + size <= best.len() && i > 0 {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if let Some(used) = fails(&c) {
                        if better(&used, &best) {
                            best = used;
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(if size > 8 { size / 2 } else { 1 });
                i = i.min(best.len());
            }
        }
        // zero chunks
        for size in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if t0.elapsed() > budget {
                    return best;
                }
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    if let Some(used) = fails(&c) {
                        if better(&used, &best) {
                            best = used;
                        }
                    }
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                if t0.elapsed() > budget {
                    return best;
                }
                let v = best[i];
                let mid = lo + (v - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match fails(&c) {
                    Some(used) if better(&used, &best) => best = used,
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        // lower one value and delete what follows (a length and its elements)
        let mut i = 0;
        while i < best.len() {
            for k in 1..=3usize {
                if t0.elapsed() > budget {
                    return best;
                }
                if i < best.len() && best[i] > 0 && i + 1 + k <= best.len() {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + k);
                    if let Some(used) = fails(&c) {
                        if better(&used, &best) {
                            best = used;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

fn read_choices(path: &Path) -> Vec<u64> {
    std::fs::read(path)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

fn write_choices(path: &Path, c: &[u64]) {
    let b: Vec<u8> = c.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(path, b).unwrap();
}

/// Run one case in this process: from a choices file or from seed and index.
fn one_case(prop: &Prop, args: &[String]) -> i32 {
    limit_memory(20 << 30);
    let a = Args::from_env();
    let part_name = flag(args, "--part").expect("--part");
    if let Some(k) = prop.known.iter().find(|k| part_name == format!("known-{}", k.key)) {
        let f = k.run;
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || catch(f)).unwrap();
        return match h.join() {
            Ok(Ok(Ok(()))) => 0,
            Ok(Ok(Err(m))) | Ok(Err(m)) => {
                println!("fails: {}", m);
                1
            }
            Err(_) => 2,
        };
    }
    let part = prop
        .parts
        .iter()
        .find(|p| p.name == part_name)
        .expect("unknown part");
    let f = part.run;
    let src = match flag(args, "--choices") {
        Some(f) => Src::replay(read_choices(Path::new(&f))),
        None => {
            let idx: u64 = flag(args, "--index").expect("--index").parse().unwrap();
            Src::random(case_seed(a.seed, prop.id, part.name, &a.profile, idx))
        }
    };
    let dump = flag(args, "--dump").map(PathBuf::from);
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut src = src;
            if let Some(d) = &dump {
                src.dump_to(d);
            }
            let mut ctx = Ctx {
                want_desc: true,
                ..Ctx::default()
            };
            let r = run_case(f, &mut src, &mut ctx);
            if let Some(d) = ctx.desc {
                println!("case: {}", d);
            }
            match r {
                Ok(()) => 0,
                Err(m) => {
                    println!("fails: {}", m);
                    1
                }
            }
        })
        .unwrap();
    h.join().unwrap_or(2)
}

pub enum Ran {
    Exit(i32, String),
    Signal(i32),
    Timeout,
}

/// Cases take milliseconds, or seconds where they run rustc.
const STALL: Duration = Duration::from_secs(100);

pub fn run_limited(cmd: &mut Command, limit: Duration, log: &Path) -> Ran {
    run_watched(cmd, limit, log, None)
}

/// With `status`, also stop when one thread of a worker stays at the same case.
fn run_watched(cmd: &mut Command, limit: Duration, log: &Path, status: Option<&Path>) -> Ran {
    let mut seen: Vec<(Vec<u8>, Instant)> = Vec::new();
    let mut last = Instant::now();
    let f = std::fs::File::create(log).unwrap();
    let e = f.try_clone().unwrap();
    let mut child = cmd
        .stdin(Stdio::null())
        .stdout(f)
        .stderr(e)
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("cannot run {:?}: {}", cmd, e);
            std::process::exit(2)
        });
    let t0 = Instant::now();
    let mut nap = 1;
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            if let Some(s) = st.signal() {
                return Ran::Signal(s);
            }
            let out = String::from_utf8_lossy(&std::fs::read(log).unwrap_or_default()).into_owned();
            return Ran::Exit(st.code().unwrap_or(2), out);
        }
        let mut stalled = false;
        if let (Some(f), true) = (status, last.elapsed() > Duration::from_secs(1)) {
            last = Instant::now();
            let b = std::fs::read(f).unwrap_or_default();
            for (i, c) in b.chunks_exact(16).enumerate() {
                match seen.get_mut(i) {
                    Some(s) if s.0 == c => {
                        stalled |= c[0] != 0 && s.1.elapsed() > STALL;
                    }
                    Some(s) => *s = (c.to_vec(), last),
                    None => seen.push((c.to_vec(), last)),
                }
            }
        }
        if stalled || t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Ran::Timeout;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}

fn is_crash(sig: i32) -> bool {
    // ILL TRAP ABRT BUS FPE SEGV SYS
    matches!(sig, 4 | 5 | 6 | 7 | 8 | 11 | 31)
}

fn bins(args: &[String]) -> Vec<(String, PathBuf)> {
    match flag(args, "--bins") {
        Some(b) => b
            .split(',')
            .map(|x| {
                let (n, p) = x.split_once('=').expect("name=path");
                (n.to_string(), PathBuf::from(p))
            })
            .collect(),
        None => vec![(
            Args::from_env().profile,
            std::env::current_exe().unwrap(),
        )],
    }
}

/// The whole check of one property: every profile, evidence, replay file.
fn drive(prop: &Prop, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let a = Args::from_env();
    let verif = PathBuf::from(flag(args, "--verif").unwrap_or_else(|| "/verif".into()));
    let work = verif.join(format!("target/run-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: Vec<(String, J)> = Vec::new();
    let mut samples: Vec<J> = Vec::new();
    let mut per_profile: Vec<(String, J)> = Vec::new();
    let mut violation: Option<PathBuf> = None;
    let mut code = 0;
    let limit = Duration::from_secs(if a.tier == "thorough" { 3 * 3600 } else { 480 });
    for (profile, bin) in bins(args) {
        let out = work.join(format!("{}.json", profile));
        let log = work.join(format!("{}.log", profile));
        let ran = run_watched(
            Command::new(&bin)
                .args(["worker", prop.id, "--out"])
                .arg(&out)
                .env("VPBT_PROFILE", &profile),
            limit,
            &log,
            Some(&out.with_extension("status")),
        );
        let on_record = || {
            let part = std::fs::read_to_string(out.with_extension("part")).ok()?;
            let failed = read_choices(&out.with_extension("failed"));
            case_again(prop, &profile, &bin, &part, Err(&failed), &work)
        };
        let suspects = || {
            let mut s: Vec<(usize, u64)> = Vec::new();
            let st = std::fs::read(out.with_extension("status")).unwrap_or_default();
            for c in st.chunks_exact(16) {
                let p = u64::from_le_bytes(c[..8].try_into().unwrap());
                let i = u64::from_le_bytes(c[8..].try_into().unwrap());
                if p > 0 {
                    s.push((p as usize - 1, i));
                }
            }
            s.sort_by_key(|x| x.1);
            s
        };
        let res = std::fs::read_to_string(&out)
            .ok()
            .and_then(|t| J::parse(&t).ok());
        if let Some(r) = &res {
            let n = r.get("evaluations").and_then(|x| x.int()).unwrap_or(0) as u64;
            evals += n;
            hashes.extend(read_choices(&out.with_extension("hashes")));
            if let Some(J::Obj(o)) = r.get("labels") {
                for (k, v) in o {
                    labels.push((format!("{}: {}", profile, k), v.clone()));
                }
            }
            if let Some(s) = r.get("samples").and_then(|x| x.arr()) {
                samples.extend(s.iter().take(6).cloned());
            }
            per_profile.push((profile.clone(), r.get("parts").cloned().unwrap_or(J::Null)));
        }
        match ran {
            Ran::Exit(0, _) => {}
            Ran::Exit(1, _) => {
                let r = res.expect("worker result");
                let f = r.get("found").expect("found").clone();
                violation = Some(write_replay(&verif, prop.id, &profile, &a, &f));
                code = 1;
            }
            Ran::Signal(s) if is_crash(s) => {
                println!("worker ({}) died with signal {}; confirming", profile, s);
                // another case, or shrinking, may be what crashed: then a failure is on record
                match on_record().or_else(|| confirm(prop, &profile, &bin, &suspects(), &work)) {
                    Some(f) => {
                        violation = Some(write_replay(&verif, prop.id, &profile, &a, &f));
                        code = 1;
                    }
                    None => {
                        println!("the crash did not repeat on its own: no verdict");
                        code = 2;
                    }
                }
            }
            Ran::Signal(s) => {
                println!("worker ({}) killed by signal {}: no verdict", profile, s);
                code = 2;
            }
            Ran::Timeout => {
                // a failure on record counts; else a case that does not end
                let f = on_record().or_else(|| {
                    confirm(prop, &profile, &bin, &suspects(), &work)
                });
                match f {
                    Some(f) => {
                        violation = Some(write_replay(&verif, prop.id, &profile, &a, &f));
                        code = 1;
                    }
                    None => {
                        println!("worker ({}) exceeded its time limit: no verdict", profile);
                        code = 2;
                    }
                }
            }
            Ran::Exit(c, o) => {
                println!("worker ({}) failed with {}:\n{}", profile, c, o);
                code = 2;
            }
        }
        if code != 0 {
            break;
        }
    }
    let mut known: Vec<J> = Vec::new();
    let listed = std::fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    for k in &prop.known {
        if code != 0 {
            break;
        }
        let (profile, bin) = bins(args).swap_remove(0);
        let part = format!("known-{}", k.key);
        let ran = run_limited(
            Command::new(&bin)
                .args(["case", prop.id, "--part", &part])
                .env("VPBT_PROFILE", &profile),
            Duration::from_secs(120),
            &work.join("known.log"),
        );
        let msg = match ran {
            Ran::Exit(0, _) => continue,
            Ran::Exit(1, o) => o,
            Ran::Signal(s) if is_crash(s) => format!("the process died with signal {}", s),
            _ => {
                println!("{}: no verdict", part);
                code = 2;
                break;
            }
        };
        let head = format!("known: property={} key={} ", prop.id, k.key);
        match listed.lines().find_map(|l| l.strip_prefix(&head)) {
            Some(what) => {
                println!("KNOWN-FINDING: property={} {}", prop.id, what);
                known.push(J::from(format!("{}: {}", k.key, what)));
            }
            None => {
                let f = obj(vec![
                    ("part", J::from(part)),
                    ("message", J::from(msg)),
                    ("choices", J::Arr(vec![])),
                ]);
                violation = Some(write_replay(&verif, prop.id, &profile, &a, &f));
                code = 1;
            }
        }
    }
    write_evidence(
        &verif,
        prop.id,
        &a,
        evals,
        hashes.len() as u64,
        prop.rule,
        samples,
        vec![
            ("labels", J::Obj(labels)),
            ("cases_per_profile", J::Obj(per_profile)),
            ("known_findings", J::Arr(known)),
        ],
        prop.assumptions,
        t0.elapsed().as_secs_f64(),
        violation.is_some(),
    );
    let _ = std::fs::remove_dir_all(&work);
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        prop.id,
        evals,
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some(v) = violation {
        println!("VIOLATION property={} replay={}", prop.id, v.display());
    }
    code
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(
    verif: &Path,
    id: &str,
    a: &Args,
    evals: u64,
    distinct: u64,
    rule: &str,
    samples: Vec<J>,
    more: Vec<(&str, J)>,
    assumptions: &[&str],
    wall: f64,
    violated: bool,
) {
    let mut cov = vec![
        ("evaluations", J::from(evals)),
        ("distinct_nontrivial", J::from(distinct)),
        ("rule", J::from(rule)),
        ("samples", J::Arr(samples)),
    ];
    cov.extend(more);
    let ev = obj(vec![
        ("property", J::from(id)),
        ("tier", J::from(a.tier.as_str())),
        ("seed", J::from(a.seed)),
        ("level", J::from("exploration")),
        ("coverage", obj(cov)),
        (
            "assumptions",
            J::Arr(assumptions.iter().map(|s| J::from(*s)).collect()),
        ),
        ("wall_s", J::Num(wall)),
        ("violations", J::Int(violated as i128)),
    ]);
    let dir = verif.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", id)), ev.print() + "\n").unwrap();
}

pub fn write_replay(verif: &Path, id: &str, profile: &str, a: &Args, found: &J) -> PathBuf {
    let dir = verif.join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}.json", id));
    let doc = obj(vec![
        ("property", J::from(id)),
        ("profile", J::from(profile)),
        ("seed", J::from(a.seed)),
        ("tier", J::from(a.tier.as_str())),
        ("found", found.clone()),
    ]);
    std::fs::write(&path, doc.print() + "\n").unwrap();
    if let Some(m) = found.get("message").and_then(|m| m.str()) {
        println!("{} ({}): {}", id, profile, m);
    }
    if let Some(m) = found.get("case").and_then(|m| m.str()) {
        println!("minimal case: {}", m);
    }
    path
}

/// Run one case alone, by its index or its choices, and shrink it if it fails
/// or crashes. A case that does not end fails too, and stays as it is.
fn case_again(
    prop: &Prop,
    profile: &str,
    bin: &Path,
    part: &str,
    case: Result<u64, &[u64]>,
    work: &Path,
) -> Option<J> {
    let (log, dump, cho) = (work.join("case.log"), work.join("case.dump"), work.join("case.choices"));
    let run = |case: Result<u64, &[u64]>, limit: Duration| -> Result<Vec<u64>, (String, bool)> {
        let mut cmd = Command::new(bin);
        cmd.args(["case", prop.id, "--part", part]).arg("--dump").arg(&dump);
        cmd.env("VPBT_PROFILE", profile);
        match case {
            Ok(i) => {
                cmd.arg("--index").arg(i.to_string());
            }
            Err(c) => {
                write_choices(&cho, c);
                cmd.arg("--choices").arg(&cho);
            }
        }
        match run_limited(&mut cmd, limit, &log) {
            Ran::Exit(1, o) => Err((o, false)),
            Ran::Signal(s) if is_crash(s) => {
                let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned();
                let text: String = text.chars().take(600).collect();
                Err((format!("the process died with signal {}: {}", s, text), false))
            }
            Ran::Timeout => Err((format!("the case does not end within {} s", limit.as_secs()), true)),
            _ => Ok(vec![]),
        }
    };
    let (mut msg, hangs) = run(case, STALL).err()?;
    let mut choices = read_choices(&dump);
    if !hangs {
        choices = shrink(choices, Duration::from_secs(20), |c| match run(Err(c), Duration::from_secs(10)) {
            Err((m, false)) => {
                msg = m;
                Some(read_choices(&dump))
            }
            _ => None,
        });
    }
    Some(obj(vec![
        ("part", J::from(part)),
        ("message", J::from(msg)),
        (
            "choices",
            J::Arr(choices.iter().map(|c| J::from(*c)).collect()),
        ),
    ]))
}

fn confirm(
    prop: &Prop,
    profile: &str,
    bin: &Path,
    suspects: &[(usize, u64)],
    work: &Path,
) -> Option<J> {
    suspects.iter().find_map(|(pi, idx)| {
        let part = prop.parts.get(*pi)?;
        case_again(prop, profile, bin, part.name, Ok(*idx), work)
    })
}

/// Re-run a replay file: exit 1 if the case still fails.
fn replay(props: &[Prop], args: &[String]) -> i32 {
    let file = &args[1];
    let doc = J::parse(&std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{}: {}", file, e);
        std::process::exit(2)
    }))
    .unwrap();
    let id = doc.get("property").and_then(|x| x.str()).unwrap();
    let profile = doc.get("profile").and_then(|x| x.str()).unwrap();
    let found = doc.get("found").unwrap();
    let part = found.get("part").and_then(|x| x.str()).unwrap();
    let choices: Vec<u64> = found
        .get("choices")
        .and_then(|x| x.arr())
        .unwrap()
        .iter()
        .map(|x| x.int().unwrap() as u64)
        .collect();
    let _ = find(props, id);
    let bins = bins(args);
    let bin = &bins
        .iter()
        .find(|(n, _)| n == profile)
        .unwrap_or(&bins[0])
        .1;
    let tmp = std::env::temp_dir().join(format!("vpbt-replay-{}", std::process::id()));
    write_choices(&tmp, &choices);
    let log = tmp.with_extension("log");
    let ran = run_limited(
        Command::new(bin)
            .args(["case", id, "--part", part, "--choices"])
            .arg(&tmp)
            .env("VPBT_PROFILE", profile),
        Duration::from_secs(300),
        &log,
    );
    let _ = std::fs::remove_file(&tmp);
    let code = match ran {
        Ran::Exit(0, o) => {
            println!("{}\nthe case passes", o);
            0
        }
        Ran::Exit(1, o) => {
            println!("{}", o);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        Ran::Signal(s) if is_crash(s) => {
            println!("the process died with signal {}", s);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        Ran::Timeout => {
            println!("the case does not end within 300 s");
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        _ => 2,
    };
    let _ = std::fs::remove_file(&log);
    let _ = std::io::stdout().flush();
    code
}
