//! C12 and C13: the parser.

use butte_build::ast::{parser, types as a};
use model::lits::*;
use model::raw::*;
use model::rawgen;
use vpbt::run::catch;
use vpbt::{Ctx, Src};

// ------------------------------------------------------- from the parser's tree

fn doc(c: &a::Comment) -> Doc {
    c.lines.iter().map(|l| l.to_string()).collect()
}

fn lit(s: &a::Scalar) -> Lit {
    Lit {
        num: match s {
            a::Scalar::Integer(i) => Num::Int(*i),
            a::Scalar::Float(f) => Num::Float(*f),
            a::Scalar::Boolean(b) => Num::Bool(*b),
        },
        text: String::new(),
    }
}

fn single(s: &a::Single) -> RSingle {
    match s {
        a::Single::Scalar(s) => RSingle::Lit(lit(s)),
        a::Single::String(s) => RSingle::Str(s.to_string()),
    }
}

fn meta(m: &Option<a::Metadata>) -> RMeta {
    m.as_ref().map(|m| {
        let mut v: Vec<_> = m
            .values
            .iter()
            .map(|(k, v)| (k.raw.to_string(), v.as_ref().map(single)))
            .collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    })
}

fn value(v: &a::Value) -> RValue {
    match v {
        a::Value::Single(s) => RValue::Single(single(s)),
        a::Value::Object(o) => {
            let (d, kv) = object(o);
            RValue::Obj(d, kv)
        }
        a::Value::List(l) => RValue::List(l.iter().map(value).collect()),
    }
}

fn object(o: &a::Object) -> (Doc, Vec<(String, RValue)>) {
    let mut kv: Vec<_> = o.values.iter().map(|(k, v)| (k.raw.to_string(), value(v))).collect();
    kv.sort_by(|a, b| a.0.cmp(&b.0));
    (doc(&o.doc), kv)
}

fn path(p: &a::QualifiedIdent) -> Vec<String> {
    p.parts.iter().map(|i| i.raw.to_string()).collect()
}

fn ty(t: &a::Type) -> RTy {
    use a::Type::*;
    RTy::Named(match t {
        Bool => "bool",
        Byte => "byte",
        UByte => "ubyte",
        Short => "short",
        UShort => "ushort",
        Int => "int",
        UInt => "uint",
        Float => "float",
        Long => "long",
        ULong => "ulong",
        Double => "double",
        Int8 => "int8",
        UInt8 => "uint8",
        Int16 => "int16",
        UInt16 => "uint16",
        Int32 => "int32",
        UInt32 => "uint32",
        Int64 => "int64",
        UInt64 => "uint64",
        Float32 => "float32",
        Float64 => "float64",
        String => "string",
        Array(t) => return RTy::Vec(Box::new(ty(t))),
        Ident(p) => return RTy::Path(path(p)),
    })
}

fn fields(f: &[a::Field]) -> Vec<RField> {
    f.iter()
        .map(|f| RField {
            doc: doc(&f.doc),
            id: f.id.raw.to_string(),
            ty: ty(&f.ty),
            default: f.default_value.as_ref().map(|d| match d {
                a::DefaultValue::Scalar(s) => RDefault::Lit(lit(s)),
                a::DefaultValue::Ident(i) => RDefault::Ident(i.raw.to_string()),
            }),
            meta: meta(&f.metadata),
        })
        .collect()
}

fn vars(v: &[a::EnumVariant]) -> Vec<RVar> {
    v.iter()
        .map(|v| RVar {
            doc: doc(&v.doc),
            id: v.id.raw.to_string(),
            value: v.value.map(|i| Lit {
                num: Num::Int(i),
                text: String::new(),
            }),
        })
        .collect()
}

pub fn from_ast(s: &a::Schema) -> Result<Raw, String> {
    let mut r = Raw::default();
    for i in &s.includes {
        let p = i.path.to_str().unwrap();
        let stem = i.path.file_stem().and_then(|s| s.to_str());
        if stem != Some(i.stem) {
            return Err(format!("the include of {:?} has the stem {:?}", p, i.stem));
        }
        r.includes.push((doc(&i.doc), p.to_string()));
    }
    for e in &s.elements {
        use a::Element::*;
        r.els.push(match e {
            Namespace(n) => El::Ns(doc(&n.doc), path(&n.ident)),
            Table(t) => El::Table(doc(&t.doc), t.id.raw.into(), meta(&t.metadata), fields(&t.fields)),
            Struct(t) => El::Struct(doc(&t.doc), t.id.raw.into(), meta(&t.metadata), fields(&t.fields)),
            Enum(e) => El::Enum(
                doc(&e.doc),
                e.id.raw.into(),
                ty(&e.base_type),
                meta(&e.metadata),
                vars(&e.variants),
                false,
            ),
            Union(u) => El::Union(doc(&u.doc), u.id.raw.into(), meta(&u.metadata), vars(&u.variants), false),
            Root(x) => El::Root(vec![], x.typename.raw.into()),
            FileExtension(x) => El::Ext(doc(&x.doc), x.ext.into()),
            FileIdentifier(x) => El::Ident(doc(&x.doc), String::from_utf8_lossy(&x.id).into_owned()),
            Attribute(x) => El::Attr(vec![], x.attr.raw.into(), false),
            Rpc(x) => El::Rpc(
                doc(&x.doc),
                x.id.raw.into(),
                x.methods
                    .iter()
                    .map(|m| RMethod {
                        doc: doc(&m.doc),
                        id: m.id.raw.into(),
                        req: path(&m.request_type),
                        resp: path(&m.response_type),
                        meta: meta(&m.metadata),
                    })
                    .collect(),
            ),
            Object(o) => {
                let (d, kv) = object(o);
                El::Object(d, kv)
            }
        });
    }
    Ok(r)
}

/// What the syntax tree keeps: no order of keys, no trailing commas, and no
/// documentation of root types and attributes.
fn norm_meta(m: &mut RMeta) {
    if let Some(kv) = m {
        norm_keys(kv);
    }
}

/// The last of equal keys counts; order does not.
fn norm_keys<T: Clone>(kv: &mut Vec<(String, T)>) {
    let mut m = std::collections::BTreeMap::new();
    for (k, v) in kv.drain(..) {
        m.insert(k, v);
    }
    kv.extend(m);
}

fn norm_value(v: &mut RValue) {
    match v {
        RValue::Single(_) => {}
        RValue::List(l) => l.iter_mut().for_each(norm_value),
        RValue::Obj(_, kv) => {
            norm_keys(kv);
            kv.iter_mut().for_each(|(_, v)| norm_value(v));
        }
    }
}

pub fn normal(r: &Raw) -> Raw {
    let mut r = r.clone();
    for e in &mut r.els {
        match e {
            El::Table(_, _, m, fs) | El::Struct(_, _, m, fs) => {
                norm_meta(m);
                fs.iter_mut().for_each(|f| norm_meta(&mut f.meta));
            }
            El::Enum(_, _, _, m, _, t) | El::Union(_, _, m, _, t) => {
                norm_meta(m);
                *t = false;
            }
            El::Root(d, _) => d.clear(),
            El::Attr(d, _, q) => {
                d.clear();
                *q = false;
            }
            El::Rpc(_, _, ms) => ms.iter_mut().for_each(|m| norm_meta(&mut m.meta)),
            El::Object(_, kv) => {
                norm_keys(kv);
                kv.iter_mut().for_each(|(_, v)| norm_value(v));
            }
            El::Ns(..) | El::Ext(..) | El::Ident(..) => {}
        }
    }
    r
}

/// The schema a text denotes, if the parser accepts all of it.
pub fn parse_text(text: &str) -> Result<Option<Raw>, String> {
    let r = catch(|| match parser::schema_decl(text) {
        Ok(("", s)) => Some(from_ast(&s)),
        _ => None,
    })
    .map_err(|p| format!("the parser panicked: {}\n{}", p, text))?;
    match r {
        None => Ok(None),
        Some(Err(e)) => Err(e),
        Some(Ok(r)) => Ok(Some(r)),
    }
}

fn first_difference(a: &Raw, b: &Raw) -> String {
    if a.includes != b.includes {
        return format!("includes: expected {:?}, got {:?}", a.includes, b.includes);
    }
    for (i, (x, y)) in a.els.iter().zip(&b.els).enumerate() {
        if x != y {
            return format!("declaration {}: expected {:?}, got {:?}", i, x, y);
        }
    }
    format!("expected {} declarations, got {}", a.els.len(), b.els.len())
}

fn clip(s: &str) -> String {
    let mut t: String = s.chars().take(1500).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    t
}

// ---------------------------------------------------------------------- C12

/// A schema is understood as written, in every layout.
pub fn c12_tree(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let raw = rawgen::raw(src);
    let toks = tokens(&raw);
    let how = any_layout(src);
    let text = layout(&toks, how, src);
    cx.describe(|| clip(&text));
    let want = normal(&raw);
    // the reference parser agrees with the generator
    match parse(&toks) {
        Some(r) if normal(&r) == want => {}
        other => panic!("reference parser: {:?} for {:?}", other, want),
    }
    match parse_text(&text)? {
        None => return Err(format!("rejected a well-formed schema:\n{}", clip(&text))),
        Some(got) => {
            if got != want {
                return Err(format!("{}\nin:\n{}", first_difference(&want, &got), clip(&text)));
            }
        }
    }
    if raw.els.len() >= 2 && toks.len() >= 15 {
        cx.nontrivial_bytes(text.as_bytes());
    }
    for e in &raw.els {
        cx.label(match e {
            El::Ns(..) => "namespace",
            El::Table(..) => "table",
            El::Struct(..) => "struct",
            El::Enum(..) => "enum",
            El::Union(..) => "union",
            El::Root(..) => "root_type",
            El::Ext(..) => "file_extension",
            El::Ident(..) => "file_identifier",
            El::Attr(..) => "attribute",
            El::Rpc(..) => "rpc_service",
            El::Object(..) => "object",
        });
    }
    Ok(())
}

/// Token sequences one or two edits away from a schema: accepted exactly when
/// the grammar derives them, and then understood the same.
pub fn c12_edit(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let raw = rawgen::raw(src);
    let mut toks = tokens(&raw);
    if toks.is_empty() {
        return Ok(());
    }
    for _ in 0..src.range(1, 2) {
        let i = src.below(toks.len().max(1));
        match src.weighted(&[3, 2, 3, 3, 2, 1, 2]) {
            6 => escape_something(src, &mut toks),
            4 => {
                // two words become one
                let pairs: Vec<usize> = (1..toks.len())
                    .filter(|k| matches!((&toks[k - 1], &toks[*k]), (Tok::Word(_), Tok::Word(_))))
                    .collect();
                if !pairs.is_empty() {
                    let k = *src.pick(&pairs);
                    if let Tok::Word(b) = toks.remove(k) {
                        if let Tok::Word(a) = &mut toks[k - 1] {
                            a.push_str(&b);
                        }
                    }
                }
            }
            5 => {
                // one word becomes two
                let words: Vec<usize> =
                    (0..toks.len()).filter(|k| matches!(&toks[*k], Tok::Word(w) if w.len() > 1 && w.is_ascii())).collect();
                if !words.is_empty() {
                    let k = *src.pick(&words);
                    if let Tok::Word(w) = toks[k].clone() {
                        let at = src.range(1, w.len() - 1);
                        if !w.as_bytes()[at].is_ascii_digit() {
                            toks[k] = Tok::Word(w[..at].to_string());
                            toks.insert(k + 1, Tok::Word(w[at..].to_string()));
                        }
                    }
                }
            }
            0 => {
                if !toks.is_empty() {
                    toks.remove(i);
                }
            }
            1 => {
                let t = toks.get(i).cloned();
                toks.extend(t.clone());
                if let Some(t) = t {
                    toks.pop();
                    toks.insert(i, t);
                }
            }
            2 => {
                let t = some_token(src);
                toks.insert(i.min(toks.len()), t);
            }
            _ => {
                let t = some_token(src);
                if i < toks.len() {
                    toks[i] = t;
                }
            }
        }
    }
    let how = if src.flag() { any_layout(src) } else { Layout::Plain };
    let text = layout(&toks, how, src);
    cx.describe(|| clip(&text));
    let escapes = toks.iter().all(|t| match t {
        Tok::Str(s) => escapes_ok(s),
        _ => true,
    });
    let want = if escapes { parse(&toks).map(|r| normal(&r)) } else { None };
    if !escapes {
        cx.label("an unknown escape");
    }
    let got = parse_text(&text)?;
    match (&want, &got) {
        (None, None) => cx.label("rejected"),
        (Some(w), Some(g)) if w == g => cx.label("accepted"),
        (Some(w), Some(g)) => return Err(format!("{}\nin:\n{}", first_difference(w, g), clip(&text))),
        (Some(_), None) => return Err(format!("rejected a well-formed schema:\n{}", clip(&text))),
        (None, Some(g)) => {
            return Err(format!(
                "accepted what the grammar does not derive, as {:?}:\n{}",
                g,
                clip(&text)
            ))
        }
    }
    cx.nontrivial_bytes(text.as_bytes());
    Ok(())
}

/// Where a character may be put in a string constant without splitting an
/// escape that is already there.
fn cuts(s: &str) -> Vec<usize> {
    let mut out = vec![];
    let mut esc = false;
    for (i, c) in s.char_indices() {
        if !esc {
            out.push(i);
        }
        esc = !esc && c == '\\';
    }
    out.push(s.len());
    out
}

/// A string constant knows the escapes of the backslash and of the quote.
fn escapes_ok(s: &str) -> bool {
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c == '\\' && !matches!(cs.next(), Some('\\') | Some('"')) {
            return false;
        }
    }
    true
}

/// Put an escape, known or unknown, into one of the string constants.
fn escape_something(src: &mut Src, toks: &mut [Tok]) {
    let strs: Vec<usize> = (0..toks.len()).filter(|k| matches!(&toks[*k], Tok::Str(_))).collect();
    if strs.is_empty() {
        return;
    }
    let k = *src.pick(&strs);
    if let Tok::Str(s) = &mut toks[k] {
        let at = *src.pick(&cuts(s));
        let e = *src.pick(&["\\\\", "\\\"", "\\n", "\\t", "\\0", "\\x", "\\u", "\\/", "\\'", "\\ ", "\\;", "\\é"]);
        s.insert_str(at, e);
    }
}

fn some_token(src: &mut Src) -> Tok {
    match src.weighted(&[6, 4, 2, 1, 1]) {
        0 => Tok::P(*src.pick(&['{', '}', '(', ')', '[', ']', ':', ';', ',', '=', '.'])),
        1 => Tok::Word(if src.flag() {
            src.pick(&[
                "table", "struct", "enum", "union", "namespace", "include", "attribute", "root_type", "rpc_service",
                "file_extension", "file_identifier", "int", "string",
            ])
            .to_string()
        } else {
            rawgen::ident(src)
        }),
        2 => {
            let l = any_lit(src);
            match &l.num {
                Num::Bool(b) => Tok::Word(b.to_string()),
                Num::Float(f) if !f.is_finite() && !l.text.starts_with(['+', '-']) => Tok::Word(l.text.clone()),
                _ => Tok::Num(l),
            }
        }
        3 => Tok::Str(src.pick(&["", "abcd", "x", "a/b.fbs"]).to_string()),
        _ => Tok::Doc(" note".into()),
    }
}

// ---------------------------------------------------------------------- C13

fn exact(want: &Lit, got: Option<&Lit>, text: &str, whole: &str) -> Result<(), String> {
    match got {
        Some(g) if g == want => Ok(()),
        _ => Err(format!(
            "{} denotes {:?}, but was read as {:?} in: {}",
            text,
            want.num,
            got.map(|g| &g.num),
            clip(whole)
        )),
    }
}

/// Literals mean exactly their value wherever one may stand.
pub fn c13_value(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let l = any_lit(src);
    let place = src.below(4);
    // literals of enum values are integers
    let (l, place) = match (&l.num, place) {
        (Num::Int(_), p) => (l, p),
        (_, 2) => (l, 0),
        (_, p) => (l, p),
    };
    let gap = *src.pick(&["", " ", "\n", "// c\n"]);
    let text = match place {
        0 => format!("table T{{x:int={}{}{};}}", gap, l.text, gap),
        1 => format!("table T(k:{}{}{}){{}}", gap, l.text, gap),
        2 => format!("enum E:long{{A={}{}{}}}", gap, l.text, gap),
        _ => format!("{{a:[1,{}{}{}]}}", gap, l.text, gap),
    };
    cx.describe(|| clip(&text));
    let r = parse_text(&text)?.ok_or_else(|| format!("rejected {}", clip(&text)))?;
    let got = match (place, &r.els[..]) {
        (0, [El::Table(_, _, _, fs)]) => match &fs[0].default {
            Some(RDefault::Lit(l)) => Some(l),
            _ => None,
        },
        (1, [El::Table(_, _, Some(m), _)]) => match &m[0].1 {
            Some(RSingle::Lit(l)) => Some(l),
            _ => None,
        },
        (2, [El::Enum(_, _, _, _, vs, _)]) => vs[0].value.as_ref(),
        (3, [El::Object(_, kv)]) => match &kv[0].1 {
            RValue::List(l) => match &l[1] {
                RValue::Single(RSingle::Lit(l)) => Some(l),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    };
    exact(&l, got, &l.text, &text)?;
    match &l.num {
        Num::Int(i) => {
            cx.label(if l.text.contains(['x', 'X']) { "hexadecimal integer" } else { "decimal integer" });
            cx.label_if(*i > i64::MAX as i128 || *i < i64::MIN as i128, "beyond 64 bits");
        }
        Num::Float(f) => {
            cx.label(if !f.is_finite() {
                "special float"
            } else if l.text.contains(['x', 'X']) {
                "hexadecimal float"
            } else {
                "decimal float"
            });
        }
        Num::Bool(_) => cx.label("boolean"),
    }
    cx.nontrivial_bytes(text.as_bytes());
    Ok(())
}

/// Words that only begin like a literal are names; things that are no literal
/// are refused, not read as something else.
pub fn c13_not(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    if src.flag() {
        let stem = *src.pick(&["nan", "inf", "infinity", "true", "false"]);
        let tail = *src.pick(&["x", "_", "1", "nan", "ity_", "E", "é", "True", "0x1"]);
        let head = *src.pick(&["", "", "_", "x", "T"]);
        let w = format!("{}{}{}", head, stem, tail);
        let text = format!("table T {{ x: E = {}; }}", w);
        cx.describe(|| text.clone());
        let r = parse_text(&text)?.ok_or_else(|| format!("rejected {}", text))?;
        match &r.els[..] {
            [El::Table(_, _, _, fs)] if fs[0].default == Some(RDefault::Ident(w.clone())) => {}
            o => return Err(format!("{} is a name, but was read as {:?}", w, o)),
        }
        cx.label("name");
        cx.nontrivial_bytes(text.as_bytes());
        return Ok(());
    }
    // numbers with something wrong in them
    let l = loop {
        let l = any_lit(src);
        if !matches!(l.num, Num::Bool(_)) {
            break l;
        }
    };
    let mut t: Vec<char> = l.text.chars().collect();
    match src.below(8) {
        0 => t.push(*src.pick(&['_', 'z', 'G', '"', '\'', '$', 'f', 'e', '.', 'x', '-', '+', 'p'])),
        1 => t.insert(0, *src.pick(&['-', '+', '.', 'x', '_', '#'])),
        2 => {
            let i = src.below(t.len());
            t.remove(i);
        }
        3 => {
            let i = src.below(t.len() + 1);
            t.insert(i, *src.pick(&['_', ' ', '-', '.', 'e', 'x', 'p', ',']));
        }
        4 => t = (i128::MAX as u128 + 1 + src.draw(0) as u128).to_string().chars().collect(),
        5 => t = format!("0x{:x}0", i128::MAX as u128 + 1 + src.draw(0) as u128).chars().collect(),
        6 => t = format!("-{}", i128::MIN as u128 + 1).chars().collect(),
        _ => {
            let i = src.below(t.len());
            let j = src.below(t.len());
            t.swap(i, j);
        }
    }
    let t: String = t.into_iter().collect();
    let text = format!("table T {{ x: int = {}; }}", t);
    cx.describe(|| clip(&text));
    let want = read_literal(t.trim());
    let got = parse_text(&text)?.map(|r| match r.els.into_iter().next() {
        Some(El::Table(_, _, _, mut fs)) => fs.remove(0).default,
        _ => None,
    });
    match (&want, &got) {
        (Some(w), Some(Some(g))) if w == g => cx.label("another literal"),
        (None, None) => cx.label("refused"),
        _ => return Err(format!("{:?} denotes {:?}, but was read as {:?}", t, want, got)),
    }
    cx.nontrivial_bytes(text.as_bytes());
    Ok(())
}

/// The default a text denotes, by the grammar of literals; None if it is none.
fn read_literal(t: &str) -> Option<RDefault> {
    if let Some(l) = word_lit(t) {
        return Some(RDefault::Lit(l));
    }
    if t.chars().next()?.is_alphabetic() || t.starts_with('_') {
        return if t.chars().all(|c| c.is_alphanumeric() || c == '_') {
            Some(RDefault::Ident(t.to_string()))
        } else {
            None
        };
    }
    let (neg, mag) = match t.strip_prefix('-') {
        Some(m) => (true, m),
        None => (false, t.strip_prefix('+').unwrap_or(t)),
    };
    let num = if let Some(l) = word_lit(mag) {
        match l.num {
            Num::Float(f) => Num::Float(if neg { -f } else { f }),
            _ => return None,
        }
    } else if let Some(h) = mag.strip_prefix("0x").or_else(|| mag.strip_prefix("0X")) {
        if !h.is_empty() && h.chars().all(|c| c.is_ascii_hexdigit()) {
            let v = i128::from_str_radix(h, 16).ok()?;
            Num::Int(if neg { -v } else { v })
        } else {
            let (m, e) = match h.find(['p', 'P']) {
                Some(i) => (&h[..i], Some(&h[i + 1..])),
                None => (h, None),
            };
            let (a, b) = match m.find('.') {
                Some(i) => (&m[..i], &m[i + 1..]),
                None => (m, ""),
            };
            if a.is_empty() && b.is_empty() || !a.chars().chain(b.chars()).all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            if e.is_none() && !m.contains('.') {
                return None;
            }
            let e: i64 = match e {
                Some(e) => {
                    let d = e.strip_prefix(['+', '-']).unwrap_or(e);
                    if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
                        return None;
                    }
                    e.parse().ok()?
                }
                None => 0,
            };
            let v = exact_hex(a, b, e)?;
            Num::Float(if neg { -v } else { v })
        }
    } else if !mag.is_empty() && mag.chars().all(|c| c.is_ascii_digit()) {
        Num::Int(t.parse().ok()?)
    } else {
        let (m, e) = match mag.find(['e', 'E']) {
            Some(i) => (&mag[..i], Some(&mag[i + 1..])),
            None => (mag, None),
        };
        let (a, b) = match m.find('.') {
            Some(i) => (&m[..i], &m[i + 1..]),
            None => (m, ""),
        };
        if a.is_empty() && b.is_empty() || !a.chars().chain(b.chars()).all(|c| c.is_ascii_digit()) {
            return None;
        }
        if let Some(e) = e {
            let d = e.strip_prefix(['+', '-']).unwrap_or(e);
            if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
                return None;
            }
        }
        let v: f64 = mag.parse().ok()?;
        Num::Float(if neg { -v } else { v })
    };
    Some(RDefault::Lit(Lit {
        num,
        text: t.to_string(),
    }))
}

/// The value of hexadecimal digits a.b times 2^e if a double holds it exactly.
fn exact_hex(a: &str, b: &str, e: i64) -> Option<f64> {
    let digits: String = format!("{}{}", a, b).trim_start_matches('0').to_string();
    let mut e = e - 4 * b.len() as i64;
    let t = digits.trim_end_matches('0');
    e += 4 * (digits.len() - t.len()) as i64;
    if t.is_empty() {
        return Some(0.0);
    }
    if t.len() > 16 {
        return None;
    }
    let mut m = u64::from_str_radix(t, 16).ok()?;
    let z = m.trailing_zeros();
    m >>= z;
    e += z as i64;
    let bits = 64 - m.leading_zeros() as i64;
    if bits > 53 || e + bits > 1024 || e < -1074 {
        return None;
    }
    // m is exact; scale in exact steps
    let mut v = m as f64;
    let mut k = e;
    while k > 0 {
        let s = k.min(900);
        v *= 2f64.powi(s as i32);
        k -= s;
    }
    while k < 0 {
        let s = (-k).min(900);
        v *= 2f64.powi(-(s as i32));
        k += s;
    }
    Some(v)
}
