//! Any schema file the grammar allows, whether or not it means anything.

use crate::lits::*;
use crate::raw::*;
use crate::schema::{any_name, doc_line};
use vpbt::Src;

/// Usually fewer than `usual`, now and then up to `max`.
fn few(src: &mut Src, usual: usize, max: usize) -> usize {
    if src.chance(1, 40) {
        src.range(usual, max)
    } else {
        src.below(usual)
    }
}

pub fn ident(src: &mut Src) -> String {
    match src.weighted(&[8, 2, 2]) {
        0 => any_name(src, true),
        1 => src
            .pick(&[
                "table", "struct", "enum", "union", "namespace", "include", "attribute", "root_type", "rpc_service",
                "file_extension", "file_identifier", "true", "false", "nan", "inf", "infinity", "int", "string", "bool",
                "float", "double", "_", "__", "_1", "tablex", "nanx", "inff", "infinit", "truely", "int8x", "strings",
                "uint", "x0", "e5", "P", "xFF", "required", "include_x", "true_", "nan1", "inf_", "boolean", "shorty",
            ])
            .to_string(),
        _ => {
            let mut s = String::new();
            let n = 1 + few(src, 6, 200);
            for i in 0..n {
                let c = *src.pick(&['a', 'Z', '_', 'é', 'ß', 'λ', '名', 'Я', '5', '٣', 'ñ', 'Ⅷ']);
                if i == 0 && !(c.is_alphabetic() || c == '_') {
                    s.push('u');
                } else {
                    s.push(c);
                }
            }
            s
        }
    }
}

pub fn string(src: &mut Src) -> String {
    let n = if src.chance(1, 40) { src.range(20, 600) } else { src.len(20) };
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[8, 2, 1, 1]) {
            0 => s.push(*src.pick(&['a', ' ', 'x', '/', '.', '1', ';', '{', '}', '\'', '(', ')', ',', ':'])),
            1 => s.push(*src.pick(&['é', '🦀', '\n', '\t', '\r', '\u{0}'])),
            2 => s.push_str("\\\\"),
            _ => s.push_str("\\\""),
        }
    }
    s
}

fn doc(src: &mut Src) -> Doc {
    let mut d = vec![];
    if src.chance(1, 6) {
        for _ in 0..1 + few(src, 3, 40) {
            d.push(doc_line(src));
        }
    }
    d
}

fn path(src: &mut Src) -> Vec<String> {
    let n = if src.chance(1, 40) { src.range(4, 30) } else { src.weighted(&[5, 3, 2]) + 1 };
    (0..n).map(|_| ident(src)).collect()
}

fn ty(src: &mut Src, depth: usize) -> RTy {
    match src.weighted(&[5, 3, 3]) {
        0 => RTy::Named(src.pick(&TYPE_NAMES)),
        1 => {
            let mut p = path(src);
            if TYPE_NAMES.contains(&p[0].as_str()) {
                p[0].push('_');
            }
            RTy::Path(p)
        }
        _ if depth < 6 => RTy::Vec(Box::new(ty(src, depth + 1))),
        _ => RTy::Named("int"),
    }
}

fn single(src: &mut Src) -> RSingle {
    if src.flag() {
        RSingle::Str(string(src))
    } else {
        RSingle::Lit(any_lit(src))
    }
}

fn meta(src: &mut Src) -> RMeta {
    if !src.chance(1, 4) {
        return None;
    }
    let n = few(src, 4, 40);
    let mut kv: Vec<(String, Option<RSingle>)> = vec![];
    for _ in 0..n {
        let k = ident(src);
        let v = if src.flag() { Some(single(src)) } else { None };
        if kv.iter().all(|(x, _)| *x != k) {
            kv.push((k, v));
        }
    }
    Some(kv)
}

fn value(src: &mut Src, depth: usize) -> RValue {
    match src.weighted(&[5, if depth < 8 { 2 } else { 0 }, if depth < 8 { 2 } else { 0 }]) {
        0 => RValue::Single(single(src)),
        1 => {
            let (d, kv) = object(src, depth + 1);
            RValue::Obj(d, kv)
        }
        _ => {
            let n = few(src, 4, 4 + 60 / (1 + depth * depth * depth));
            RValue::List((0..n).map(|_| value(src, depth + 1)).collect())
        }
    }
}

fn object(src: &mut Src, depth: usize) -> (Doc, Vec<(String, RValue)>) {
    let d = doc(src);
    let n = few(src, 4, 4 + 30 / (1 + depth * depth * depth));
    let mut kv: Vec<(String, RValue)> = vec![];
    for _ in 0..n {
        let k = ident(src);
        let v = value(src, depth);
        if kv.iter().all(|(x, _)| *x != k) {
            kv.push((k, v));
        }
    }
    (d, kv)
}

fn fields(src: &mut Src) -> Vec<RField> {
    let n = few(src, 6, 300);
    (0..n)
        .map(|_| {
            let doc = doc(src);
            let id = ident(src);
            let ty = ty(src, 0);
            let default = match src.weighted(&[4, 2, 1]) {
                0 => None,
                1 => Some(RDefault::Lit(any_lit(src))),
                _ => {
                    let i = ident(src);
                    Some(match word_lit(&i) {
                        Some(l) => RDefault::Lit(l),
                        None => RDefault::Ident(i),
                    })
                }
            };
            let meta = meta(src);
            RField { doc, id, ty, default, meta }
        })
        .collect()
}

fn vars(src: &mut Src) -> Vec<RVar> {
    let n = 1 + few(src, 5, 300);
    (0..n)
        .map(|_| {
            let doc = doc(src);
            let id = ident(src);
            let value = if src.chance(1, 3) {
                let v = any_int(src);
                Some(int_lit(v, src))
            } else {
                None
            };
            RVar { doc, id, value }
        })
        .collect()
}

pub fn element(src: &mut Src) -> El {
    match src.weighted(&[6, 2, 4, 3, 2, 2, 1, 1, 1, 2, 1]) {
        0 => {
            let d = doc(src);
            let id = ident(src);
            let m = meta(src);
            El::Table(d, id, m, fields(src))
        }
        1 => {
            let d = doc(src);
            let id = ident(src);
            let m = meta(src);
            El::Struct(d, id, m, fields(src))
        }
        2 => {
            let d = doc(src);
            let id = ident(src);
            let t = ty(src, 4);
            let m = meta(src);
            let v = vars(src);
            El::Enum(d, id, t, m, v, src.flag())
        }
        3 => {
            let d = doc(src);
            let id = ident(src);
            let m = meta(src);
            let v = vars(src);
            El::Union(d, id, m, v, src.flag())
        }
        4 => {
            let d = doc(src);
            El::Ns(d, path(src))
        }
        5 => {
            let d = doc(src);
            El::Root(d, ident(src))
        }
        6 => {
            let d = doc(src);
            El::Ext(d, string(src))
        }
        7 => {
            let d = doc(src);
            let s: String = (0..4).map(|_| *src.pick(&['A', 'z', '0', ' ', '_', '!', '~', '.'])).collect();
            El::Ident(d, s)
        }
        8 => {
            let d = doc(src);
            if src.flag() {
                El::Attr(d, string(src), true)
            } else {
                El::Attr(d, ident(src), false)
            }
        }
        9 => {
            let d = doc(src);
            let id = ident(src);
            let n = 1 + few(src, 4, 60);
            let ms = (0..n)
                .map(|_| {
                    let doc = doc_of(src);
                    let id = ident(src);
                    let req = path(src);
                    let resp = path(src);
                    let meta = meta(src);
                    RMethod { doc, id, req, resp, meta }
                })
                .collect();
            El::Rpc(d, id, ms)
        }
        _ => {
            let (d, kv) = object(src, 0);
            El::Object(d, kv)
        }
    }
}

fn doc_of(src: &mut Src) -> Doc {
    doc(src)
}

pub fn raw(src: &mut Src) -> Raw {
    let mut r = Raw::default();
    if src.chance(1, 4) {
        for _ in 0..1 + few(src, 3, 30) {
            let d = doc(src);
            let p = match src.below(3) {
                0 => "a.fbs".to_string(),
                1 => format!("dir/../{}.fbs", ident(src)),
                _ => {
                    let s = string(src);
                    if std::path::Path::new(&s).file_stem().is_some() {
                        s
                    } else {
                        "b".into()
                    }
                }
            };
            r.includes.push((d, p));
        }
    }
    let max = 1 + src.size as usize / 10;
    let n = few(src, max + 1, max + 60);
    for _ in 0..n {
        r.els.push(element(src));
    }
    r
}
