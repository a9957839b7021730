//! C25: the output depends on the schema alone; C26: documentation is kept.

use crate::comp::*;
use crate::resolve::items;
use crate::rust::Dir;
use crate::total::small;
use model::raw::*;
use model::schema::*;
use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vpbt::{Ctx, Src};

fn any_cfg(src: &mut Src) -> Cfg {
    Cfg {
        docs: *src.pick(&[0, 1, 3]),
        big: 40,
        bigs: [1, 1, 1, 7],
        ..small()
    }
}

/// Once more, and once more with other blanks and comments: the same bytes.
pub fn repeat(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = any_cfg(src);
    let s = Schema::gen(src, &c);
    let toks = tokens(&s.raw());
    let text = layout(&toks, Layout::Plain, src);
    let how = any_layout(src);
    let text2 = layout(&toks, how, src);
    cx.describe(|| clip(&text2));
    let a = must(&text)?;
    let b = must(&text)?;
    if a != b {
        return Err(format!("two runs give different code for:\n{}", clip(&text)));
    }
    let c = must(&text2)?;
    if a != c {
        return Err(format!("the code depends on blanks or comments:\n{}\nagainst\n{}", clip(&text), clip(&text2)));
    }
    if text2 != text {
        cx.label("other layout");
    }
    if s.tables.iter().map(|t| t.fields.len()).sum::<usize>() > 2 {
        cx.nontrivial_bytes(text2.as_bytes());
    }
    Ok(())
}

/// The words and literals of a piece of code. Documentation lines lose
/// blanks at their end.
fn words(code: &str) -> Result<BTreeMap<String, usize>, String> {
    fn walk(ts: TokenStream, m: &mut BTreeMap<String, usize>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            let w = match t {
                TokenTree::Group(g) => {
                    walk(g.stream(), m);
                    continue;
                }
                TokenTree::Ident(i) if i == "derive" || i == "doc" => continue,
                TokenTree::Ident(i) => i.to_string(),
                TokenTree::Literal(l) => {
                    let doc = i >= 2 && matches!(&v[i - 2], TokenTree::Ident(d) if d == "doc");
                    match syn::parse_str::<syn::LitStr>(&l.to_string()) {
                        // a known finding: see slash_doc
                        Ok(s) if doc && s.value().starts_with('/') => continue,
                        Ok(s) if doc => format!("doc {}", s.value().trim_end()),
                        Ok(s) => format!("string {}", s.value()),
                        Err(_) => l.to_string(),
                    }
                }
                TokenTree::Punct(_) => continue,
            };
            *m.entry(w).or_insert(0) += 1;
        }
    }
    let ts: TokenStream = code.parse().map_err(|_| "the generated code does not parse".to_string())?;
    let mut m = BTreeMap::new();
    walk(ts, &mut m);
    Ok(m)
}

fn same_words(a: &str, b: &str, what: &str, text: &str) -> Result<(), String> {
    let (x, y) = (words(a)?, words(b)?);
    if x == y {
        return Ok(());
    }
    let k = x
        .keys()
        .chain(y.keys())
        .find(|k| x.get(*k) != y.get(*k))
        .unwrap();
    Err(format!(
        "{}: {:?} appears {} and {} times for:\n{}",
        what,
        k,
        x.get(k).unwrap_or(&0),
        y.get(k).unwrap_or(&0),
        clip(text)
    ))
}

fn formatted(text: &str) -> Result<String, String> {
    match compile_with(text, false, None) {
        Err(p) => Err(format!("the compiler panicked: {}\n{}", p, clip(text))),
        Ok(Err(e)) => Err(format!("formatting was refused: {}\n{}", clip(&e), clip(text))),
        Ok(Ok(s)) => Ok(s),
    }
}

pub fn format(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = any_cfg(src);
    let s = Schema::gen(src, &c);
    let text = s.text();
    cx.describe(|| clip(&text));
    let a = must(&text)?;
    let b = formatted(&text)?;
    same_words(&a, &b, "plain and formatted code differ", &text)?;
    items(&b, &text)?;
    cx.nontrivial_bytes(text.as_bytes());
    Ok(())
}

// ------------------------------------------------------------- processes

fn butte() -> PathBuf {
    std::env::var_os("VPBT_BUTTE").map(PathBuf::from).unwrap_or_else(|| "/verif/target/repo/debug/butte".into())
}

struct Said {
    ok: bool,
    out: Vec<u8>,
    err: String,
}

fn call(mut cmd: Command, stdin: Option<&[u8]>) -> Said {
    cmd.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let mut child = cmd.spawn().unwrap_or_else(|e| {
        eprintln!("cannot run {:?}: {}", cmd, e);
        std::process::exit(2)
    });
    if let Some(b) = stdin {
        let mut p = child.stdin.take().unwrap();
        let _ = p.write_all(b);
    }
    let o = child.wait_with_output().unwrap();
    Said {
        ok: o.status.success(),
        out: o.stdout,
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

/// The command line tool does what the library does.
pub fn cli(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = any_cfg(src);
    let s = Schema::gen(src, &c);
    let mut text = s.text();
    let broken = src.chance(1, 4);
    if broken {
        match src.below(3) {
            0 => text.push_str("table"),
            1 => text.push_str("table Q9 { x: Nowhere_9; }"),
            _ => text.insert(0, '}'),
        }
    }
    let ugly = src.flag();
    let files = src.below(3);
    cx.describe(|| format!("ugly {}, {} files, {}", ugly, files, clip(&text)));
    let want = compile_with(&text, ugly, None).map_err(|p| format!("the compiler panicked: {}\n{}", p, clip(&text)))?;
    let dir = Dir::new();
    let (i, o) = (dir.0.join("in put.fbs"), dir.0.join("out.rs"));
    std::fs::write(&i, &text).unwrap();
    if src.flag() {
        // longer than anything that is written over it
        std::fs::write(&o, vec![b'x'; 3_000_000]).unwrap();
    }
    let mut cmd = Command::new(butte());
    cmd.current_dir(&dir.0);
    if ugly && src.flag() {
        cmd.arg(*src.pick(&["-u", "--ugly"]));
    } else if ugly {
        // after the file names
    }
    let mut late = ugly && cmd.get_args().count() == 0;
    if files >= 1 {
        cmd.arg(&i);
    }
    if files == 2 {
        cmd.arg(&o);
    }
    if late {
        cmd.arg("--ugly");
        late = false;
    }
    let _ = late;
    if files < 2 && !broken && src.chance(1, 10) {
        // nothing can be written
        let stdin = if files == 0 {
            Stdio::from(std::fs::File::open(&i).unwrap())
        } else {
            Stdio::null()
        };
        cmd.stdin(stdin)
            .stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap())
            .stderr(Stdio::null());
        let st = cmd.status().unwrap_or_else(|e| {
            eprintln!("cannot run {:?}: {}", cmd, e);
            std::process::exit(2)
        });
        if st.success() && want.as_ref().map_or(false, |w| !w.is_empty()) {
            return Err(format!("the tool reports success although it could not write its output:\n{}", clip(&text)));
        }
        cx.label("full device");
        cx.nontrivial_bytes(text.as_bytes());
        return Ok(());
    }
    let said = call(cmd, if files == 0 { Some(text.as_bytes()) } else { None });
    let got = if files == 2 { std::fs::read(&o).unwrap_or_default() } else { said.out.clone() };
    match want {
        Err(_) => {
            if said.ok {
                return Err(format!("the tool reports success for a schema the library refuses:\n{}", clip(&text)));
            }
            if said.err.trim().is_empty() {
                return Err("the tool fails without a message".into());
            }
            if files < 2 && !got.is_empty() {
                return Err("the tool fails and writes code".into());
            }
            cx.label("refused");
        }
        Ok(w) => {
            if !said.ok {
                return Err(format!("the tool fails where the library does not: {}\n{}", clip(&said.err), clip(&text)));
            }
            if got != w.as_bytes() {
                return Err(format!("the tool writes other code than the library:\n{}", clip(&text)));
            }
            cx.label("compiled");
        }
    }
    cx.nontrivial_bytes(text.as_bytes());
    Ok(())
}

/// `gen compile-fbs FILE`: what a build script does.
pub fn compile_fbs_main(path: &str) -> i32 {
    match butte_build::compile_fbs(path) {
        Ok(()) => 0,
        Err(e) => {
            eprintln!("{}", e);
            1
        }
    }
}

pub fn build_script(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = any_cfg(src);
    let s = Schema::gen(src, &c);
    let mut text = s.text();
    // no schema, a missing file, nowhere to write
    let fault = if src.chance(1, 4) { src.range(1, 3) } else { 0 };
    if fault == 1 {
        text.push_str(src.pick(&["table", "table Q9 { x: Nowhere_9; }", "}"]));
    }
    let stem = *src.pick(&["schema", "a.b", "x y", "UPPER", "fbs"]);
    let ext = *src.pick(&[".fbs", ".fbs", ".txt", ""]);
    cx.describe(|| format!("{}{}: {}", stem, ext, clip(&text)));
    let dir = Dir::new();
    let (i, o) = (dir.0.join("in"), dir.0.join("out"));
    std::fs::create_dir_all(&i).unwrap();
    std::fs::create_dir_all(&o).unwrap();
    let file = i.join(format!("{}{}", stem, ext));
    if fault != 2 {
        std::fs::write(&file, &text).unwrap();
    }
    if fault == 3 {
        std::fs::remove_dir(&o).unwrap();
    } else if src.flag() {
        // the output of an earlier build
        let old = o.join(file.with_extension("rs").file_name().unwrap());
        std::fs::write(old, "// older and longer\n".repeat(1 << src.below(14))).unwrap();
        cx.label("written before");
    }
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("compile-fbs");
    if src.flag() {
        cmd.arg(&file);
    } else {
        cmd.current_dir(&dir.0);
        cmd.arg(Path::new("in").join(file.file_name().unwrap()));
    }
    let unset = src.chance(1, 10);
    if unset {
        cmd.env_remove("OUT_DIR");
    } else {
        cmd.env("OUT_DIR", &o);
    }
    let said = call(cmd, None);
    if unset {
        if said.ok {
            return Err("success without a directory to write to".into());
        }
        cx.label("no output directory");
        return Ok(());
    }
    if fault > 0 {
        if said.ok {
            let what = ["", "a broken schema", "a missing schema", "a missing output directory"][fault];
            return Err(format!("compile_fbs reports success for {}:\n{}", what, clip(&text)));
        }
        cx.label("refused");
        cx.nontrivial_bytes(text.as_bytes());
        return Ok(());
    }
    if !said.ok {
        return Err(format!("compile_fbs failed: {}\n{}", clip(&said.err), clip(&text)));
    }
    let names: Vec<String> = std::fs::read_dir(&o)
        .unwrap()
        .map(|e| e.unwrap().file_name().to_string_lossy().into_owned())
        .collect();
    let want = file.with_extension("rs").file_name().unwrap().to_string_lossy().into_owned();
    if names != [want.clone()] {
        return Err(format!("expected the file {:?}, got {:?}", want, names));
    }
    let got = std::fs::read_to_string(o.join(&want)).unwrap_or_default();
    if got != formatted(&text)? {
        return Err(format!("compile_fbs writes other code than compile_fbs_generic:\n{}", clip(&text)));
    }
    cx.nontrivial_bytes(text.as_bytes());
    Ok(())
}

// -------------------------------------------------------------------- C26

fn docs(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if !a.path.is_ident("doc") {
            continue;
        }
        if let Ok(syn::Meta::NameValue(n)) = a.parse_meta() {
            if let syn::Lit::Str(s) = n.lit {
                out.extend(s.value().split('\n').map(|x| x.to_string()));
            }
        }
    }
    out
}

/// Documentation of types, variants and methods, by module.
fn doc_map(code: &str, text: &str) -> Result<BTreeMap<String, Vec<String>>, String> {
    let f = syn::parse_file(code).map_err(|e| format!("the generated code does not parse ({}) for:\n{}", e, clip(text)))?;
    fn walk(items: &[syn::Item], at: &str, m: &mut BTreeMap<String, Vec<String>>) {
        for i in items {
            match i {
                syn::Item::Mod(x) => {
                    if let Some((_, c)) = &x.content {
                        walk(c, &format!("{}::{}", at, x.ident), m);
                    }
                }
                syn::Item::Struct(x) => {
                    m.insert(format!("{}::{}", at, x.ident), docs(&x.attrs));
                    for f in &x.fields {
                        if let Some(n) = &f.ident {
                            m.insert(format!("{}::{}#{}", at, x.ident, n), docs(&f.attrs));
                        }
                    }
                }
                syn::Item::Enum(x) => {
                    m.insert(format!("{}::{}", at, x.ident), docs(&x.attrs));
                    for v in &x.variants {
                        m.insert(format!("{}::{}::{}", at, x.ident, v.ident), docs(&v.attrs));
                    }
                }
                syn::Item::Impl(x) if x.trait_.is_none() => {
                    if let syn::Type::Path(p) = &*x.self_ty {
                        let name = p.path.segments.last().unwrap().ident.to_string();
                        for f in &x.items {
                            if let syn::ImplItem::Method(f) = f {
                                m.insert(format!("{}::{}.{}", at, name, f.sig.ident), docs(&f.attrs));
                            }
                            if let syn::ImplItem::Const(f) = f {
                                m.insert(format!("{}::{}::{}", at, name, f.ident), docs(&f.attrs));
                            }
                        }
                    }
                }
                syn::Item::Fn(x) => {
                    m.insert(format!("{}::{}()", at, x.sig.ident), docs(&x.attrs));
                }
                syn::Item::Const(x) => {
                    m.insert(format!("{}::{}", at, x.ident), docs(&x.attrs));
                }
                _ => {}
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(&f.items, "crate", &mut m);
    Ok(m)
}

fn want_docs(s: &Schema) -> BTreeMap<String, Vec<String>> {
    let mut m = BTreeMap::new();
    let at = |ns: usize| {
        std::iter::once("crate".to_string())
            .chain(s.ns_key(ns))
            .collect::<Vec<_>>()
            .join("::")
    };
    for t in &s.tables {
        let p = format!("{}::{}", at(t.ns), fix(&t.name));
        for f in &t.fields {
            m.insert(format!("{}.{}", p, snake(&f.name)), f.doc.clone());
            if let Ty::Union(_) = f.ty {
                m.insert(format!("{}.{}", p, snake(&type_field(&f.name))), f.doc.clone());
            }
        }
        m.insert(p, t.doc.clone());
    }
    for e in &s.enums {
        let p = format!("{}::{}", at(e.ns), fix(&e.name));
        for v in &e.vars {
            m.insert(format!("{}::{}", p, fix(&v.name)), v.doc.clone());
        }
        m.insert(p, e.doc.clone());
    }
    for u in &s.unions {
        let p = format!("{}::{}", at(u.ns), fix(&u.name));
        let q = format!("{}::butte_gen::{}", at(u.ns), fix(&format!("{}Type", u.name)));
        for (k, t) in u.vars.iter().enumerate() {
            let v = fix(&s.tables[*t].name);
            m.insert(format!("{}::{}", p, v), u.docs[k].clone());
            m.insert(format!("{}::{}", q, v), u.docs[k].clone());
        }
        m.insert(format!("{}::None", q), vec![]);
        m.insert(p, u.doc.clone());
        m.insert(q, u.doc.clone());
    }
    m
}

fn check_docs(s: &Schema, code: &str, text: &str, trim: bool) -> Result<(), String> {
    let got = doc_map(code, text)?;
    let norm = |v: &Vec<String>| -> Vec<String> {
        if trim {
            // a line starting with a slash is a known finding: see slash_doc
            v.iter().filter(|x| !x.starts_with('/')).map(|x| x.trim_end().to_string()).collect()
        } else {
            v.clone()
        }
    };
    let want = want_docs(s);
    for (k, v) in &want {
        match got.get(k) {
            None => return Err(format!("there is no {}\n{}", k, clip(text))),
            Some(g) if norm(g) != norm(v) => {
                return Err(format!("{}: documentation {:?}, expected {:?}\n{}", k, g, v, clip(text)))
            }
            _ => {}
        }
    }
    Ok(())
}

fn doc_case(src: &mut Src, cx: &mut Ctx) -> (Schema, String) {
    let c = Cfg {
        docs: *src.pick(&[2, 4, 7]),
        ..small()
    };
    let s = Schema::gen(src, &c);
    let toks = tokens(&s.raw());
    let how = any_layout(src);
    let text = layout(&toks, how, src);
    cx.describe(|| clip(&text));
    if want_docs(&s).values().filter(|v| !v.is_empty()).count() > 1 {
        cx.nontrivial_bytes(text.as_bytes());
    }
    (s, text)
}

pub fn docs_plain(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (s, text) = doc_case(src, cx);
    let code = must(&text)?;
    check_docs(&s, &code, &text, false)?;
    // the same without any documentation
    let toks: Vec<Tok> = tokens(&s.raw()).into_iter().filter(|t| !matches!(t, Tok::Doc(_))).collect();
    let bare = must(&layout(&toks, Layout::Plain, src))?;
    let want = want_docs(&s);
    let (got, none) = (doc_map(&code, &text)?, doc_map(&bare, &text)?);
    for (k, v) in &got {
        if !want.contains_key(k) && none.get(k) != Some(v) {
            return Err(format!("{}: documentation {:?}, of something else\n{}", k, v, clip(&text)));
        }
    }
    let plain = |code: &str| -> Result<String, String> {
        Ok(undocumented(code.parse::<TokenStream>().map_err(|e| e.to_string())?).to_string())
    };
    if plain(&code)? != plain(&bare)? {
        return Err(format!("documentation changes the code:\n{}", clip(&text)));
    }
    for t in &s.tables {
        let at: Vec<String> = std::iter::once("crate".to_string()).chain(s.ns_key(t.ns)).collect();
        for f in &t.fields {
            let k = format!("{}::{}Args#{}", at.join("::"), fix(&t.name), fix(&f.name));
            if let Some(d) = got.get(&k) {
                check_default_doc(&s, f, d).map_err(|e| format!("{}: {}\n{}", k, e, clip(&text)))?;
            }
        }
    }
    Ok(())
}

/// The code without its documentation.
fn undocumented(code: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for t in code {
        if let TokenTree::Group(g) = &t {
            let doc = matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i == "doc");
            if doc && matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '#') {
                out.pop();
                continue;
            }
            out.push(proc_macro2::Group::new(g.delimiter(), undocumented(g.stream())).into());
        } else {
            out.push(t);
        }
    }
    out.into_iter().collect()
}

/// If a default value is stated for an argument, it is the field's.
fn check_default_doc(s: &Schema, f: &FieldDef, docs: &[String]) -> Result<(), String> {
    for d in docs {
        let v = match (d.find("__"), d.rfind("__")) {
            (Some(a), Some(b)) if a + 2 <= b => d[a + 2..b].replace(' ', ""),
            _ => continue,
        };
        let ok = match (&f.ty, s.read_default(f)) {
            (Ty::Enum(_), Some(_)) => match &f.default {
                Some(RDefault::Ident(i)) => v.rsplit("::").next() == Some(i.as_str()),
                _ => false,
            },
            (Ty::Sc(sc, _), Some(bits)) => {
                let v = v.trim_end_matches(rust_sc(*sc));
                match sc {
                    vpbt::wire::Sc::Bool => v.parse() == Ok(bits != 0),
                    vpbt::wire::Sc::F32 => v.parse::<f32>().ok().or_else(|| float_text(v).map(|x| x as f32)).map(|x| u64::from(x.to_bits())) == Some(bits) || (v.ends_with("NAN") && f32::from_bits(bits as u32).is_nan()),
                    vpbt::wire::Sc::F64 => float_text(v).map(|x| x.to_bits()) == Some(bits) || (v.ends_with("NAN") && f64::from_bits(bits).is_nan()),
                    _ => v.parse::<i128>().ok().map(|x| int_bits(*sc, x)) == Some(bits),
                }
            }
            _ => false,
        };
        if !ok {
            return Err(format!("the default is given as {}", v));
        }
    }
    Ok(())
}

fn float_text(v: &str) -> Option<f64> {
    match v.rsplit("::").next() {
        Some("INFINITY") => Some(f64::INFINITY),
        Some("NEG_INFINITY") => Some(f64::NEG_INFINITY),
        _ => v.parse().ok(),
    }
}

pub fn docs_formatted(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (s, text) = doc_case(src, cx);
    check_docs(&s, &formatted(&text)?, &text, true)
}

/// Known finding: rustfmt turns `#[doc = "/"]` into `////`, which is no documentation.
pub fn slash_doc() -> Result<(), String> {
    let code = formatted("////x\ntable A { }")?;
    match doc_map(&code, "")?.get("crate::A") {
        Some(d) if d == &vec!["/x".to_string()] => Ok(()),
        d => Err(format!("{:?}", d)),
    }
}
