//! C14: every input gives an output or an error.

use crate::comp::*;
use model::raw::*;
use model::rawgen;
use model::schema::*;
use std::io::{self, Cursor, Read, Write};
use vpbt::run::catch;
use vpbt::{Ctx, Src};

fn some_text(src: &mut Src) -> String {
    if src.chance(1, 3) {
        let raw = rawgen::raw(src);
        let how = any_layout(src);
        layout(&tokens(&raw), how, src)
    } else {
        let s = Schema::gen(src, &small());
        let how = any_layout(src);
        layout(&tokens(&s.raw()), how, src)
    }
}

pub fn small() -> Cfg {
    Cfg {
        tables: 4,
        fields: 5,
        enums: 2,
        unions: 1,
        rpcs: 1,
        spaces: 2,
        ..Cfg::default()
    }
}

const BITS: [&str; 44] = [
    "{", "}", "(", ")", "[", "]", ":", ";", ",", "=", ".", "\"", "//", "///", "\n", " ", "-", "+", "0x", "1e", "nan",
    "table", "enum", "union", "struct", "namespace", "include", "attribute", "root_type", "rpc_service",
    "file_identifier", "file_extension", "\\", "\u{feff}", "\0", "é", "🦀", "/*", "*/", "'", "true", "A", "int",
    "(required)",
];

fn damage(text: &str, src: &mut Src) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..src.range(1, 4) {
        let n = c.len();
        let i = src.below(n + 1);
        match src.weighted(&[3, 3, 2, 1, 1, 1]) {
            0 => {
                let k = src.range(1, 3).min(n - i.min(n));
                c.drain(i..i + k);
            }
            1 => {
                let b = *src.pick(&BITS);
                c.splice(i..i, b.chars());
            }
            2 => {
                if i < n {
                    c[i] = char::from_u32(src.draw(128) as u32).unwrap();
                }
            }
            3 => {
                // repeat a stretch
                let k = src.below(20).min(n - i);
                let s: Vec<char> = c[i..i + k].to_vec();
                let m = src.range(1, 3);
                for _ in 0..m {
                    c.splice(i..i, s.iter().copied());
                }
            }
            4 => c.truncate(i),
            _ => {
                let k = src.below(40).min(n - i);
                let s: Vec<char> = c.drain(i..i + k).collect();
                let j = src.below(c.len() + 1);
                c.splice(j..j, s);
            }
        }
    }
    c.into_iter().collect()
}

/// Names next to which a valid schema still cannot become Rust code.
fn judge(text: &str, cx: &mut Ctx) -> Result<(), String> {
    cx.describe(|| clip(text));
    match compile(text) {
        Err(p) => {
            return Err(format!("the compiler panicked: {}\n{}", p, clip(text)));
        }
        Ok(Err(e)) => {
            if e.trim().is_empty() {
                return Err("an empty error message".into());
            }
            cx.label("refused");
        }
        Ok(Ok(code)) => {
            cx.label("compiled");
            if let Err(e) = syn::parse_file(&code) {
                return Err(format!("the generated code does not parse ({}) for:\n{}", e, clip(text)));
            }
        }
    }
    if text.len() > 20 {
        cx.nontrivial_bytes(text.as_bytes());
    }
    Ok(())
}

/// Damaged schema texts.
pub fn damaged(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let t = some_text(src);
    let t = damage(&t, src);
    judge(&t, cx)
}

/// Well-formed texts that mean nothing in particular.
pub fn random_trees(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let mut raw = rawgen::raw(src);
    if src.flag() {
        // few names, so that references often resolve
        rename(&mut raw, src);
    }
    let t = plain(&raw);
    judge(&t, cx)
}

fn rename(r: &mut Raw, src: &mut Src) {
    let names = ["A", "C", "D", "x", "y", "type"];
    let pick = |src: &mut Src| src.pick(&names).to_string();
    let ty = |t: &mut RTy, src: &mut Src| {
        let mut t = t;
        loop {
            match t {
                RTy::Vec(u) => t = u,
                RTy::Path(p) => {
                    *p = vec![names[src.below(names.len())].to_string()];
                    break;
                }
                _ => break,
            }
        }
    };
    r.els.retain(|e| !matches!(e, El::Struct(..) | El::Ext(..) | El::Ident(..) | El::Attr(..) | El::Object(..)));
    for e in &mut r.els {
        match e {
            El::Table(_, id, _, fs) => {
                *id = pick(src);
                for f in fs {
                    ty(&mut f.ty, src);
                    if src.chance(3, 4) {
                        f.default = None;
                    }
                }
            }
            El::Enum(_, id, t, ..) => {
                *id = pick(src);
                if src.chance(3, 4) {
                    *t = RTy::Named("int");
                }
            }
            El::Union(_, id, _, vs, _) => {
                *id = pick(src);
                for v in vs {
                    v.id = pick(src);
                }
            }
            El::Rpc(_, id, ms) => {
                *id = pick(src);
                for m in ms {
                    m.id = pick(src);
                    m.req = vec![pick(src)];
                    m.resp = vec![pick(src)];
                }
            }
            El::Root(_, id) => *id = pick(src),
            El::Ns(_, p) => {
                *p = vec![pick(src)];
                if src.flag() {
                    p.push(pick(src));
                }
            }
            _ => {}
        }
    }
}

/// Any bytes at all.
pub fn bytes(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let n = src.len(200);
    let mut b = if src.flag() { src.bytes(n) } else { some_text(src).into_bytes() };
    for _ in 0..src.below(4) {
        if !b.is_empty() {
            let i = src.below(b.len());
            b[i] = src.draw(256) as u8;
        }
    }
    cx.describe(|| format!("{:?}", String::from_utf8_lossy(&b)));
    let valid = std::str::from_utf8(&b).is_ok();
    if valid {
        return judge(&String::from_utf8(b).unwrap(), cx);
    }
    let d = run(true, None, Box::new(Cursor::new(b.clone()))).map_err(|p| format!("the compiler panicked: {}", p))?;
    if d.result.is_ok() {
        return Err("accepted an input that is not UTF-8".into());
    }
    if !d.out.is_empty() {
        return Err("wrote output for an input that is not UTF-8".into());
    }
    cx.label("not UTF-8");
    cx.nontrivial_bytes(&b);
    Ok(())
}

struct Chunks {
    data: Vec<u8>,
    pos: usize,
    step: usize,
    fail_at: Option<usize>,
    hiccup: bool,
}

impl Read for Chunks {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.hiccup {
            self.hiccup = false;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        if let Some(k) = self.fail_at {
            if self.pos >= k {
                return Err(io::Error::new(io::ErrorKind::Other, "broken input"));
            }
        }
        let mut n = self.step.min(buf.len()).min(self.data.len() - self.pos);
        if let Some(k) = self.fail_at {
            n = n.min(k - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct Slow {
    to: Sink,
    step: usize,
    room: Option<usize>,
    hiccup: bool,
}

impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.hiccup {
            self.hiccup = false;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        let mut n = self.step.min(b.len());
        if let Some(r) = &mut self.room {
            if *r == 0 && !b.is_empty() {
                return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
            }
            n = n.min(*r);
            *r -= n;
        }
        self.to.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Inputs and outputs that come in pieces, are interrupted or fail.
pub fn io_faults(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let s = Schema::gen(src, &small());
    let text = s.text();
    let want = must(&text)?;
    let fail_in = src.chance(1, 3);
    let fail_out = !fail_in && src.chance(1, 2);
    let input = Chunks {
        data: text.clone().into_bytes(),
        pos: 0,
        step: *src.pick(&[1, 3, 64, 100_000]),
        fail_at: if fail_in { Some(src.below(text.len() + 1)) } else { None },
        hiccup: src.flag(),
    };
    let sink = Sink::default();
    let out = Slow {
        to: sink.clone(),
        step: *src.pick(&[1, 7, 4096, 1_000_000]),
        room: if fail_out && !want.is_empty() { Some(src.below(want.len())) } else { None },
        hiccup: src.flag(),
    };
    let must_fail = fail_in || out.room.is_some();
    // what is written may reach its place only later
    let buffer = if src.chance(1, 3) { Some(*src.pick(&[16, 4096, 1_000_000])) } else { None };
    cx.describe(|| format!("input fails: {}, output fails: {}, buffer: {:?}; {}", fail_in, fail_out, buffer, clip(&text)));
    let out: Box<dyn Write> = match buffer {
        None => Box::new(out),
        Some(n) => Box::new(io::BufWriter::with_capacity(n, out)),
    };
    let r = catch(move || butte_build::compile_fbs_generic(true, None, Box::new(input), out).is_ok())
        .map_err(|p| format!("the compiler panicked: {}", p))?;
    let got = sink.0.lock().unwrap().clone();
    if must_fail {
        if r {
            return Err("success was reported although reading or writing failed".into());
        }
        if fail_in && !got.is_empty() {
            return Err("output was written although reading the input failed".into());
        }
        cx.label("failing input or output");
    } else {
        if !r {
            return Err("an error was reported although all reads and writes succeed".into());
        }
        if got != want.as_bytes() {
            return Err("the output depends on how it is read or written".into());
        }
        cx.label("pieces");
    }
    cx.nontrivial_bytes(text.as_bytes());
    Ok(())
}

/// Nothing of the input is ignored: junk at any place between declarations is an error.
pub fn junk(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let s = Schema::gen(src, &small());
    let mut raw = s.raw();
    let bits = [
        "x", "}", "{", ";", "\"", "1", "table", "table X", "table X {", "enum E", "/", "é", ",", "(a)", "///", "/// doc",
        "namespace", "root_type", "\0", "\u{feff}", "include \"a.fbs\"", "union U { }", "rpc_service R { }",
        "enum F : int { }", "tabel X {}", "Table X {}", "table X {} ;",
    ];
    let j = *src.pick(&bits);
    // at a boundary between declarations
    let k = src.below(raw.els.len() + 1);
    let tail = Raw {
        includes: vec![],
        els: raw.els.split_off(k),
    };
    let text = format!("{}\n{}\n{}", plain(&raw), j, plain(&tail));
    // the junk may swallow what follows in a legal way
    let open = ["table", "table X {", "enum E", "table X", "namespace", "root_type", "{"].contains(&j);
    let doc = j.starts_with("///");
    if (open || doc) && k < k + tail.els.len() {
        return Ok(());
    }
    cx.describe(|| clip(&text));
    must(&s.text())?;
    match compile(&text) {
        Err(p) => return Err(format!("the compiler panicked: {}\n{}", p, clip(&text))),
        Ok(Ok(_)) => return Err(format!("the junk {:?} went unnoticed:\n{}", j, clip(&text))),
        Ok(Err(_)) => {}
    }
    cx.nontrivial_bytes(text.as_bytes());
    Ok(())
}

/// Known finding: the parser recurses once per bracket.
pub fn deep_nesting() -> Result<(), String> {
    let n = 200_000;
    let text = format!("table A {{ x: {}int{}; }}", "[".repeat(n), "]".repeat(n));
    compile(&text).map(|_| ())
}

/// A name of any letters and digits at all, also ones that no Rust name can have.
fn wild_name(src: &mut Src) -> String {
    let mut s = String::new();
    if src.chance(1, 3) {
        s.push('_');
    }
    for _ in 0..1 + src.below(3) {
        if src.chance(1, 3) {
            s.push(*src.pick(&['a', 'B', '_', '7']));
            continue;
        }
        let hi = *src.pick(&[0x250, 0x700, 0x1000, 0x3000, 0x30000, 0x110000]);
        let mut c = src.below(hi) as u32;
        // the next letter or digit
        for _ in 0..3000 {
            match char::from_u32(c) {
                Some(x) if x.is_alphanumeric() && x != '_' => {
                    s.push(x);
                    break;
                }
                _ => c += 1,
            }
        }
    }
    match s.chars().next() {
        Some(c) if c.is_alphabetic() || c == '_' => s,
        _ => format!("_{}", s),
    }
}

/// Schemas with such names in every place where the code needs one.
pub fn wild_names(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let n: Vec<String> = (0..3).map(|_| wild_name(src)).collect();
    let mut at = |plain: &str| match src.below(4) {
        0 => n[src.below(3)].clone(),
        _ => plain.to_string(),
    };
    let (ns, t, f, g, e, v, u, un, r, m) = (
        at("space"), at("Tab"), at("field"), at("other"), at("En"), at("Va"), at("Un"), at("union_field"), at("Serv"), at("Meth"),
    );
    let text = format!(
        "namespace {ns}; enum {e} : byte {{ Zero, {v} = 3 }} table Plain {{ x: int; }} union {u} {{ Plain, {t} }} \
         table {t} {{ {f}: int = 5; {g}: {e} = {v}; rec: {t}; {un}: {u}; list: [{ns}.{t}]; }} root_type {t}; \
         rpc_service {r} {{ {m}({t}): Plain; }}"
    );
    judge(&text, cx)?;
    if n.iter().any(|n| text.contains(n.as_str()) && !n.is_ascii()) {
        cx.label("letters beyond ASCII");
    }
    Ok(())
}
