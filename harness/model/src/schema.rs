//! Schemas as meant: types with resolved references, names that do not
//! clash, and the generator for them.

use crate::lits::*;
use crate::raw::*;
use heck::{ShoutySnakeCase, SnakeCase};
use std::collections::BTreeSet;
use vpbt::wire::{Sc, SCALARS};
use vpbt::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    /// a scalar, by one of its names
    Sc(Sc, &'static str),
    Str,
    Enum(usize),
    Table(usize),
    Union(usize),
    Vec(Box<Ty>),
}

pub fn sc_of(name: &str) -> Option<Sc> {
    Some(match name {
        "bool" => Sc::Bool,
        "byte" | "int8" => Sc::I8,
        "ubyte" | "uint8" => Sc::U8,
        "short" | "int16" => Sc::I16,
        "ushort" | "uint16" => Sc::U16,
        "int" | "int32" => Sc::I32,
        "uint" | "uint32" => Sc::U32,
        "long" | "int64" => Sc::I64,
        "ulong" | "uint64" => Sc::U64,
        "float" | "float32" => Sc::F32,
        "double" | "float64" => Sc::F64,
        _ => return None,
    })
}

pub fn rust_sc(sc: Sc) -> &'static str {
    match sc {
        Sc::Bool => "bool",
        Sc::I8 => "i8",
        Sc::U8 => "u8",
        Sc::I16 => "i16",
        Sc::U16 => "u16",
        Sc::I32 => "i32",
        Sc::U32 => "u32",
        Sc::I64 => "i64",
        Sc::U64 => "u64",
        Sc::F32 => "f32",
        Sc::F64 => "f64",
    }
}

pub fn sc_range(sc: Sc) -> (i128, i128) {
    match sc {
        Sc::Bool => (0, 1),
        Sc::I8 => (-128, 127),
        Sc::U8 => (0, 255),
        Sc::I16 => (-32768, 32767),
        Sc::U16 => (0, 65535),
        Sc::I32 => (i32::MIN as i128, i32::MAX as i128),
        Sc::U32 => (0, u32::MAX as i128),
        Sc::I64 => (i64::MIN as i128, i64::MAX as i128),
        Sc::U64 => (0, u64::MAX as i128),
        _ => panic!("no integer"),
    }
}

pub fn int_bits(sc: Sc, v: i128) -> u64 {
    sc.norm(v as u64)
}

#[derive(Clone, Debug, PartialEq)]
pub struct FieldDef {
    pub name: String,
    pub ty: Ty,
    /// as written
    pub default: Option<RDefault>,
    pub required: bool,
    pub doc: Doc,
    pub meta: Vec<(String, Option<RSingle>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TableDef {
    pub ns: usize,
    pub name: String,
    pub fields: Vec<FieldDef>,
    pub doc: Doc,
    pub meta: RMeta,
    pub root: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct VarDef {
    pub name: String,
    pub value: Option<Lit>,
    pub doc: Doc,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EnumDef {
    pub ns: usize,
    pub name: String,
    pub base: Sc,
    pub base_name: &'static str,
    pub vars: Vec<VarDef>,
    pub doc: Doc,
    pub meta: RMeta,
    pub trailing: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct UnionDef {
    pub ns: usize,
    pub name: String,
    /// the variants' tables
    pub vars: Vec<usize>,
    pub values: Vec<Option<Lit>>,
    pub docs: Vec<Doc>,
    pub doc: Doc,
    pub meta: RMeta,
    pub trailing: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MethodDef {
    pub name: String,
    pub req: usize,
    pub resp: usize,
    /// none, client, server, bidi
    pub streaming: u8,
    pub doc: Doc,
    pub meta: Vec<(String, Option<RSingle>)>,
    pub empty_meta: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RpcDef {
    pub ns: usize,
    pub name: String,
    pub methods: Vec<MethodDef>,
    pub doc: Doc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ItemRef {
    Table(usize),
    Enum(usize),
    Union(usize),
    Rpc(usize),
    Root(usize),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Schema {
    /// paths; the first is the root
    pub spaces: Vec<Vec<String>>,
    pub ns_docs: Vec<Doc>,
    pub tables: Vec<TableDef>,
    pub enums: Vec<EnumDef>,
    pub unions: Vec<UnionDef>,
    pub rpcs: Vec<RpcDef>,
    /// order of declaration
    pub order: Vec<ItemRef>,
    pub includes: Vec<(Doc, String)>,
    /// write references inside a namespace in full
    pub full_paths: bool,
}

impl EnumDef {
    /// The numbers of the variants: as written, or one more than the one before.
    pub fn values(&self) -> Vec<i128> {
        let mut next = 0;
        let mut out = vec![];
        for v in &self.vars {
            let x = match &v.value {
                Some(Lit { num: Num::Int(i), .. }) => *i,
                _ => next,
            };
            out.push(x);
            next = x + 1;
        }
        out
    }
    pub fn bits(&self) -> Vec<u64> {
        self.values().iter().map(|v| int_bits(self.base, *v)).collect()
    }
}

impl UnionDef {
    /// Type numbers of the variants; 0 is none.
    pub fn numbers(&self) -> Vec<u8> {
        let mut next = 1;
        let mut out = vec![];
        for v in &self.values {
            let x = match v {
                Some(Lit { num: Num::Int(i), .. }) => *i,
                _ => next,
            };
            out.push(x as u8);
            next = x + 1;
        }
        out
    }
}

// ------------------------------------------------------------------- names

const KEYWORDS: [&str; 50] = [
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn",
    "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self",
    "static", "struct", "super", "trait", "true", "unsafe", "use", "where", "while", "abstract", "become", "box", "do",
    "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield",
];

/// The name of the Rust item for a schema name.
pub fn fix(name: &str) -> String {
    if name == "type" {
        "ty".into()
    } else if KEYWORDS.contains(&name) {
        format!("{}_", name)
    } else if name.is_empty() || name == "_" {
        "__".into()
    } else if name.starts_with(char::is_numeric) {
        format!("_{}", name)
    } else {
        name.into()
    }
}

/// The name of a module or method for a schema name.
pub fn snake(name: &str) -> String {
    fix(&fix(name).to_snake_case())
}

pub fn vt_name(name: &str) -> String {
    format!("VT_{}", fix(name).to_shouty_snake_case())
}

/// The name of a union field's companion.
pub fn type_field(name: &str) -> String {
    fix(&format!("{}_type", fix(name).to_snake_case()))
}

const WORDS: [&str; 40] = [
    "a", "b", "x", "name", "id", "pos", "hp", "mana", "color", "weapon", "inventory", "friend", "count", "size",
    "data", "key", "value", "left", "right", "next", "parent", "child", "kind", "test", "flags", "level", "speed",
    "vec", "str", "int_value", "boolean", "stringy", "uint9", "floaty", "n1", "x2y", "longer_name", "table_data",
    "byte_count", "inner",
];

/// Names that mean something to the schema language, or that generated code also uses.
const ODD_NAMES: [&str; 53] = [
    "table", "union", "namespace", "root_type", "rpc_service", "include", "attribute", "required", "nan", "inf",
    "infinity", "int", "string", "float32", "bool", "table_", "builder", "args", "buf", "fbb", "start", "finish",
    "new", "from", "follow", "o", "default", "e", "s", "value", "scalar", "dst", "get", "len", "iter", "clone", "eq",
    "hash", "cmp", "push", "into", "as_ref", "Vec", "String", "Box", "Table", "Vector", "Ok", "Err", "Some",
    "Error", "Inner", "Output",
];

fn style(words: &str, src: &mut Src) -> String {
    let parts: Vec<&str> = words.split('_').collect();
    let cap = |s: &str| {
        let mut c = s.chars();
        match c.next() {
            Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
            None => String::new(),
        }
    };
    match src.weighted(&[6, 2, 2, 1, 1, 1]) {
        0 => parts.join("_"),
        1 => parts.iter().map(|p| cap(p)).collect(),
        2 => {
            let mut s: String = parts.iter().map(|p| cap(p)).collect();
            if let Some(c) = s.get(..1) {
                s = c.to_lowercase() + &s[1..];
            }
            s
        }
        3 => parts.join("_").to_uppercase(),
        4 => format!("{}_", parts.join("_")),
        _ => format!("{}{}", parts.join("_"), src.draw(20)),
    }
}

/// Any identifier that can name a Rust item after `fix`.
pub fn any_name(src: &mut Src, odd: bool) -> String {
    match src.weighted(&[16, 3, if odd { 3 } else { 0 }, if odd { 3 } else { 0 }, if odd { 2 } else { 0 }]) {
        0 => {
            let w = *src.pick(&WORDS);
            style(w, src)
        }
        1 if odd && src.chance(1, 8) => {
            // a long one
            let n = src.range(5, 40);
            let w: Vec<&str> = (0..n).map(|_| *src.pick(&WORDS)).collect();
            style(&w.join("_"), src)
        }
        1 => {
            let a = *src.pick(&WORDS);
            let b = *src.pick(&WORDS);
            style(&format!("{}_{}", a, b), src)
        }
        2 if src.chance(1, 8) => "type".into(),
        2 => src.pick(&KEYWORDS).to_string(),
        3 => src.pick(&ODD_NAMES).to_string(),
        _ => {
            let mut s = src.pick(&["k", "M", "_"]).to_string();
            let letters: &[char] = if src.chance(1, 2) {
                &['a', '_', 'é', 'Я', 'ß', '名', '٣', 'λ', 'Ж', '5']
            } else {
                &['a', '_', 'B', 'z', '7', 'X', '_', 'q']
            };
            for _ in 0..src.below(7) {
                s.push(*src.pick(letters));
            }
            s
        }
    }
}

/// Another name that some careless comparison takes for this one.
fn alike(name: &str, src: &mut Src) -> String {
    let mut c: Vec<char> = name.chars().collect();
    let at = src.below(c.len().max(1));
    match src.below(5) {
        0 | 1 => {
            if let Some(x) = c.get_mut(at) {
                *x = if x.is_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
            }
        }
        2 => c.retain(|x| *x != '_'),
        3 => c.push(*src.pick(&['_', 's', '1'])),
        _ => {
            c.pop();
        }
    }
    match c.first() {
        Some(x) if x.is_alphabetic() || *x == '_' => c.into_iter().collect(),
        _ => name.to_string(),
    }
}

fn type_name(src: &mut Src, odd: bool, used: &[String]) -> String {
    if !used.is_empty() && src.chance(1, 6) {
        // as in another namespace, perhaps
        let n = src.pick(used).clone();
        return if src.chance(1, 3) { alike(&n, src) } else { n };
    }
    let n = any_name(src, odd);
    if src.chance(3, 4) {
        let mut c = n.chars();
        match c.next() {
            Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
            None => n,
        }
    } else {
        n
    }
}

/// Type names that generated code cannot have next to it (see DESIGN.md).
pub const RESERVED_TYPES: [&str; 22] = [
    "Option", "Result", "Default", "From", "B", "str", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32",
    "f64", "bool", "butte", "std", "butte_gen", "usize", "string",
];

#[derive(Default)]
struct Names {
    /// (namespace, Rust name) of types, Args and Builder structs, and modules
    items: BTreeSet<(Vec<String>, String)>,
    /// (namespace, name) of functions
    fns: BTreeSet<(Vec<String>, String)>,
}

impl Names {
    fn free(&self, ns: &[String], names: &[String], fns: &[String]) -> bool {
        let uniq: BTreeSet<_> = names.iter().collect();
        uniq.len() == names.len()
            && names.iter().all(|n| {
                !self.items.contains(&(ns.to_vec(), n.clone())) && !RESERVED_TYPES.contains(&n.as_str())
            })
            && fns.iter().all(|n| !self.fns.contains(&(ns.to_vec(), n.clone())))
    }
    fn take(&mut self, ns: &[String], names: &[String], fns: &[String]) {
        for n in names {
            self.items.insert((ns.to_vec(), n.clone()));
        }
        for n in fns {
            self.fns.insert((ns.to_vec(), n.clone()));
        }
    }
}

// --------------------------------------------------------------- generator

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub tables: usize,
    pub fields: usize,
    pub enums: usize,
    pub unions: usize,
    pub rpcs: usize,
    pub spaces: usize,
    /// weights of field types: scalar, string, enum, table, union, vector
    pub types: [u64; 6],
    /// out of 8
    pub required: u64,
    /// out of 8
    pub defaults: u64,
    pub odd: bool,
    /// out of 8
    pub docs: u64,
    pub metas: bool,
    /// out of 1000: something in it is very large
    pub big: u64,
    /// what: weights of a table, an enum, a union, the whole
    pub bigs: [u64; 4],
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Big {
    No,
    Table,
    Enum,
    Union,
    Many,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            tables: 6,
            fields: 8,
            enums: 3,
            unions: 2,
            rpcs: 0,
            spaces: 3,
            types: [8, 3, 3, 3, 3, 5],
            required: 1,
            defaults: 4,
            odd: true,
            docs: 1,
            metas: true,
            big: 12,
            bigs: [3, 3, 1, 3],
        }
    }
}

pub fn gen_doc(src: &mut Src, of8: u64) -> Doc {
    let mut d = vec![];
    if src.chance(of8, 8) {
        let n = if src.chance(1, 30) { src.range(8, 60) } else { src.range(1, 3) };
        for _ in 0..n {
            d.push(doc_line(src));
        }
    }
    d
}

pub fn doc_line(src: &mut Src) -> String {
    match src.weighted(&[12, 6, 2, 1]) {
        0 => format!(" {}", src.pick(&WORDS)),
        3 => {
            // a long one
            let n = src.range(20, 300);
            (0..n).map(|i| WORDS[(i * i + n) % WORDS.len()]).collect::<Vec<_>>().join(" ")
        }
        1 => src
            .pick(&[
                "",
                " ",
                "no leading blank",
                "  two blanks, trailing ",
                " quote \" and backslash \\ and \\n",
                " é→🦀",
                " table X { y: int; }",
                " // not a comment",
                "/",
                "//",
                " */ /* ",
                " {} {0} #x $y",
                "\ttab",
                " #[doc = \"x\"]",
                " 'a' b\"c\" r#\"d\"#",
                " ;",
                " \u{202a}",
            ])
            .to_string(),
        _ => {
            let n = src.len(30);
            let mut s = String::new();
            for _ in 0..n {
                let c = char::from_u32(src.draw(0x3000) as u32).unwrap_or('x');
                if c != '\n' && c != '\r' {
                    s.push(c);
                }
            }
            s
        }
    }
}

fn gen_sc(src: &mut Src) -> (Sc, &'static str) {
    let sc = *src.pick(&SCALARS);
    let names: Vec<&'static str> = TYPE_NAMES.iter().copied().filter(|n| sc_of(n) == Some(sc)).collect();
    let n = src.below(names.len());
    (sc, names[n])
}

fn gen_int(sc: Sc, src: &mut Src) -> i128 {
    let (lo, hi) = sc_range(sc);
    let v = match src.weighted(&[5, 2, 3]) {
        0 => src.draw(100) as i128 - 20,
        1 => *src.pick(&[lo, hi, lo + 1, hi - 1]),
        _ => src.draw(0) as i64 as i128,
    };
    if v < lo || v > hi {
        let b = sc.norm(v as u64);
        // the same bits, read as this type
        match sc {
            Sc::I8 => b as u8 as i8 as i128,
            Sc::I16 => b as u16 as i16 as i128,
            Sc::I32 => b as u32 as i32 as i128,
            Sc::I64 => b as i64 as i128,
            _ => b as i128,
        }
    } else {
        v
    }
}

/// A default for a scalar field, and a way to write it.
fn gen_default(sc: Sc, src: &mut Src) -> RDefault {
    RDefault::Lit(match sc {
        Sc::Bool => {
            let b = src.chance(3, 4);
            Lit {
                num: Num::Bool(b),
                text: b.to_string(),
            }
        }
        Sc::F32 | Sc::F64 => {
            if src.chance(1, 5) {
                int_lit(src.draw(1 << 24) as i128 - (1 << 23), src)
            } else {
                let v = any_float(src);
                if sc == Sc::F32 {
                    // a value the field can hold exactly
                    let w = v as f32;
                    let w = if w.is_infinite() != v.is_infinite() { 2.5 } else { w };
                    float_lit(w as f64, src)
                } else {
                    float_lit(v, src)
                }
            }
        }
        _ => {
            let v = gen_int(sc, src);
            int_lit(v, src)
        }
    })
}

pub fn default_bits(sc: Sc, d: &Lit) -> u64 {
    match (&d.num, sc) {
        (Num::Bool(b), _) => *b as u64,
        (Num::Int(i), Sc::F32) => (*i as f32).to_bits() as u64,
        (Num::Int(i), Sc::F64) => (*i as f64).to_bits(),
        (Num::Int(i), _) => int_bits(sc, *i),
        (Num::Float(f), Sc::F32) => (*f as f32).to_bits() as u64,
        (Num::Float(f), _) => f.to_bits(),
    }
}

fn gen_meta(src: &mut Src, cfg: &Cfg) -> Vec<(String, Option<RSingle>)> {
    let mut kv = vec![];
    if cfg.metas && src.chance(1, 8) {
        let most = if src.chance(1, 8) { 12 } else { 2 };
        for _ in 0..src.range(1, most) {
            let k = src
                .pick(&[
                    "deprecated", "priority", "key", "hash", "nested_flatbuffer", "custom", "bit_flags", "original_order",
                    "force_align", "id", "csharp_partial", "private", "a", "b", "z",
                ])
                .to_string();
            if kv.iter().any(|(x, _): &(String, _)| *x == k) {
                continue;
            }
            let v = match src.below(3) {
                0 => None,
                1 => {
                    let l = any_lit(src);
                    Some(RSingle::Lit(l))
                }
                _ => Some(RSingle::Str("fnv1_32".into())),
            };
            kv.push((k, v));
        }
    }
    kv
}

fn opt_meta(src: &mut Src, cfg: &Cfg) -> RMeta {
    let m = gen_meta(src, cfg);
    if m.is_empty() {
        if cfg.metas && src.chance(1, 30) {
            Some(vec![])
        } else {
            None
        }
    } else {
        Some(m)
    }
}

fn capital(w: &str) -> String {
    let mut c = w.chars();
    c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str())
}

fn unique(
    src: &mut Src,
    stem: &str,
    mut make: impl FnMut(&mut Src) -> String,
    mut free: impl FnMut(&str) -> bool,
) -> String {
    for _ in 0..4 {
        let n = make(src);
        if free(&n) {
            return n;
        }
    }
    for k in 0.. {
        let n = format!("{}{}", stem, k);
        if free(&n) {
            return n;
        }
    }
    unreachable!()
}

impl Schema {
    pub fn ns_key(&self, ns: usize) -> Vec<String> {
        self.spaces[ns].iter().map(|s| snake(s)).collect()
    }

    pub fn gen(src: &mut Src, cfg: &Cfg) -> Schema {
        let mut s = Schema {
            spaces: vec![vec![]],
            ns_docs: vec![vec![]],
            ..Schema::default()
        };
        let mut names = Names::default();
        let mut seen: Vec<String> = vec![];
        let big = if src.chance(cfg.big, 1000) {
            [Big::Table, Big::Enum, Big::Union, Big::Many][src.weighted(&cfg.bigs)]
        } else {
            Big::No
        };
        // namespaces
        let n_ns = match (cfg.spaces, big) {
            (0, _) => 0,
            (_, Big::Many) => src.below(12),
            (n, _) => src.below(n + 1),
        };
        let deep = if src.chance(1, 10) { 9 } else { 4 };
        for _ in 0..n_ns {
            // a new path, often below or beside an existing one
            let base = src.below(s.spaces.len());
            let mut path = s.spaces[base].clone();
            if src.chance(1, 3) {
                path.pop();
            }
            // a copy of another one below this one
            let copy = if src.chance(1, 4) {
                let other = src.pick(&s.spaces).clone();
                path.extend(other.clone());
                path.truncate(deep);
                !other.is_empty()
            } else {
                false
            };
            for _ in 0..if copy { 0 } else { src.range(1, deep / 2) } {
                if path.len() >= deep {
                    break;
                }
                let seg = if src.chance(1, 5) {
                    // a name used elsewhere
                    let all: Vec<String> = s.spaces.iter().flatten().cloned().collect();
                    if all.is_empty() {
                        any_name(src, cfg.odd)
                    } else {
                        let n = src.pick(&all).clone();
                        if src.chance(1, 3) {
                            alike(&n, src)
                        } else {
                            n
                        }
                    }
                } else {
                    any_name(src, cfg.odd)
                };
                path.push(seg);
            }
            // no segment may be a reserved name, nor equal another one only after renaming
            let key: Vec<String> = path.iter().map(|x| snake(x)).collect();
            let bad = key.iter().any(|k| ["butte", "std", "butte_gen", "s"].contains(&k.as_str()) || k.is_empty())
                || path.iter().any(|x| ["super", "self", "crate", "Self"].contains(&x.as_str()))
                || TYPE_NAMES.contains(&path[0].as_str())
                || s.spaces.contains(&path)
                || s.spaces.iter().any(|p| {
                    let n = p.len().min(path.len());
                    (0..n).any(|i| {
                        p[..i].iter().map(|x| snake(x)).eq(key[..i].iter().cloned())
                            && p[i] != path[i]
                            && snake(&p[i]) == key[i]
                    })
                });
            if bad {
                continue;
            }
            s.spaces.push(path);
            let d = gen_doc(src, cfg.docs);
            s.ns_docs.push(d);
        }
        for i in 0..s.spaces.len() {
            let k = s.ns_key(i);
            for j in 0..k.len() {
                names.take(&k[..j], &[k[j].clone()], &[]);
            }
        }
        let pick_ns = |s: &Schema, src: &mut Src| src.below(s.spaces.len());
        // enums
        let n = if cfg.enums == 0 { 0 } else { src.below(cfg.enums + 1) };
        let n = if big == Big::Enum { n.max(1) } else { n };
        for i in 0..n {
            let ns = pick_ns(&s, src);
            let key = s.ns_key(ns);
            let name = unique(
                src,
                &format!("E{}e", i),
                |src| type_name(src, cfg.odd, &seen),
                |n| {
                    names.free(&key, &[fix(n)], &[fix(n).to_snake_case()])
                        && !TYPE_NAMES.contains(&n)
                        && !fix(n).to_snake_case().is_empty()
                },
            );
            names.take(&key, &[fix(&name)], &[fix(&name).to_snake_case()]);
            seen.push(name.clone());
            let mut base = gen_sc(src);
            while matches!(base.0, Sc::Bool | Sc::F32 | Sc::F64) {
                base = (Sc::I8, "byte");
            }
            let mut e = EnumDef {
                ns,
                name,
                base: base.0,
                base_name: base.1,
                vars: vec![],
                doc: gen_doc(src, cfg.docs),
                meta: opt_meta(src, cfg),
                trailing: src.chance(1, 4),
            };
            let (lo, hi) = sc_range(e.base);
            let k = if big == Big::Enum && i == 0 {
                src.range(258, 330)
            } else if src.chance(1, 20) {
                src.range(20, 90)
            } else {
                src.range(1, 6)
            };
            for j in 0..k {
                let name = unique(
                    src,
                    &format!("V{}v", j),
                    |src| match e.vars.len() {
                        n if n > 0 && src.chance(1, 10) => alike(&e.vars[src.below(n)].name, src),
                        _ => type_name(src, cfg.odd, &[]),
                    },
                    |n| e.vars.iter().all(|v| fix(&v.name) != fix(n)) && !["Self"].contains(&n),
                );
                let used = e.values();
                let next = used.last().map_or(0, |v| v + 1);
                let implicit_ok = next >= lo && next <= hi && !used.contains(&next);
                let value = if implicit_ok && src.chance(3, 5) {
                    None
                } else {
                    let v = if src.flag() {
                        // a little further
                        next + src.draw(5) as i128
                    } else {
                        gen_int(e.base, src)
                    };
                    if v < lo || v > hi || used.contains(&v) {
                        if !implicit_ok {
                            continue;
                        }
                        None
                    } else {
                        Some(int_lit(v, src))
                    }
                };
                let doc = gen_doc(src, cfg.docs);
                e.vars.push(VarDef { name, value, doc });
            }
            if e.vars.is_empty() {
                e.vars.push(VarDef {
                    name: "Only".into(),
                    value: None,
                    doc: vec![],
                });
            }
            s.enums.push(e);
        }
        // tables, first without fields
        let n_tab = match big {
            Big::Union if src.chance(1, 3) => src.range(16, 130),
            Big::Union => src.range(130, 255),
            Big::Many => src.range(12, 50),
            _ => src.range(1, cfg.tables.max(1)),
        };
        let one_ns = pick_ns(&s, src);
        for i in 0..n_tab {
            let ns = if big == Big::Union { one_ns } else { pick_ns(&s, src) };
            let key = s.ns_key(ns);
            let list = |n: &str| {
                let f = fix(n);
                vec![f.clone(), format!("{}Args", f), format!("{}Builder", f)]
            };
            let name = unique(
                src,
                &format!("T{}t", i),
                |src| type_name(src, cfg.odd, &seen),
                |n| names.free(&key, &list(n), &[]) && !TYPE_NAMES.contains(&n),
            );
            names.take(&key, &list(&name), &[]);
            seen.push(name.clone());
            let doc = gen_doc(src, cfg.docs);
            let meta = opt_meta(src, cfg);
            s.tables.push(TableDef {
                ns,
                name,
                fields: vec![],
                doc,
                meta,
                root: false,
            });
        }
        // unions of tables of one namespace
        let n = if cfg.unions == 0 { 0 } else { src.below(cfg.unions + 1) };
        let n = if big == Big::Union { n.max(1) } else { n };
        for i in 0..n {
            let first = src.below(n_tab);
            let ns = s.tables[first].ns;
            let key = s.ns_key(ns);
            let mut gkey = key.clone();
            gkey.push("butte_gen".into());
            let mut vars: Vec<usize> = (0..n_tab)
                .filter(|t| {
                    s.tables[*t].ns == ns
                        && (*t == first || if big == Big::Union && i == 0 { src.chance(31, 32) } else { src.flag() })
                        && !["None", "Self", "self", "super", "crate"].contains(&s.tables[*t].name.as_str())
                })
                .collect();
            if vars.is_empty() {
                continue;
            }
            src.shuffle(&mut vars);
            let name = unique(
                src,
                &format!("U{}u", i),
                |src| type_name(src, cfg.odd, &seen),
                |n| {
                    let c = fix(&format!("{}Type", n));
                    names.free(&key, &[fix(n)], &[])
                        && names.free(&gkey, &[c.clone()], &[c.to_snake_case()])
                        && !TYPE_NAMES.contains(&n)
                },
            );
            let c = fix(&format!("{}Type", name));
            names.take(&key, &[fix(&name), "butte_gen".into()], &[]);
            names.take(&gkey, &[c.clone()], &[c.to_snake_case()]);
            seen.push(name.clone());
            let mut u = UnionDef {
                ns,
                name,
                vars: vec![],
                values: vec![],
                docs: vec![],
                doc: gen_doc(src, cfg.docs),
                meta: opt_meta(src, cfg),
                trailing: src.chance(1, 4),
            };
            let sparse = big != Big::Union || src.flag();
            for t in vars {
                let used: Vec<i128> = u.numbers().iter().map(|x| *x as i128).collect();
                let next = used.last().map_or(1, |x| x + 1);
                let v = if sparse && src.chance(1, 5) {
                    // in a union with many variants, mostly small gaps
                    let v = if big == Big::Union && src.chance(7, 8) {
                        (next + src.draw(4) as i128).min(255)
                    } else {
                        src.draw(255) as i128 + 1
                    };
                    if used.contains(&v) {
                        None
                    } else {
                        Some(int_lit(v, src))
                    }
                } else {
                    None
                };
                if v.is_none() && (next > 255 || used.contains(&next)) {
                    continue;
                }
                u.vars.push(t);
                u.values.push(v);
                u.docs.push(gen_doc(src, cfg.docs));
            }
            if !u.vars.is_empty() {
                s.unions.push(u);
            }
        }
        // fields
        for t in 0..n_tab {
            let k = if big == Big::Table && t == 0 {
                src.range(258, 330)
            } else if big == Big::Union && t > 0 {
                src.below(2)
            } else if big != Big::Many && src.chance(1, 25) {
                src.range(20, 60)
            } else {
                src.below(cfg.fields + 1)
            };
            let mut cfg = *cfg;
            if big == Big::Union {
                cfg.types = if t > 0 { [1, 1, 0, 0, 0, 0] } else { [1, 1, 1, 1, 2, 0] };
            }
            for _ in 0..k.min(if big == Big::Union { 4 } else { k }) {
                if let Some(f) = s.gen_field(t, src, &cfg) {
                    s.tables[t].fields.push(f);
                }
            }
        }
        // services
        let n = match (cfg.rpcs, big) {
            (0, _) => 0,
            (_, Big::Many) => src.below(10),
            (n, _) => src.below(n + 1),
        };
        for i in 0..n {
            let ns = pick_ns(&s, src);
            let key = s.ns_key(ns);
            let name = unique(
                src,
                &format!("R{}r", i),
                |src| type_name(src, cfg.odd, &seen),
                |n| names.free(&key, &[fix(n)], &[]),
            );
            names.take(&key, &[fix(&name)], &[]);
            let mut methods: Vec<MethodDef> = vec![];
            let k = if src.chance(1, 15) { src.range(5, 40) } else { src.range(1, 4) };
            for j in 0..k {
                let (Some(req), Some(resp)) = (s.pick_table(ns, src), s.pick_table(ns, src)) else {
                    continue;
                };
                let like = match methods.len() {
                    0 => None,
                    n if src.chance(1, 10) => Some(methods[src.below(n)].name.clone()),
                    _ => None,
                };
                let name = unique(
                    src,
                    &format!("M{}m", j),
                    |src| match &like {
                        // another spelling of the name of another method
                        Some(n) => match src.below(3) {
                            0 => snake(n),
                            1 => n.to_uppercase(),
                            _ => snake(n).split('_').map(capital).collect(),
                        },
                        None => type_name(src, cfg.odd, &[]),
                    },
                    |n| {
                        n.starts_with(|c: char| c.is_alphabetic() || c == '_')
                            && n.chars().all(|c| c.is_alphanumeric() || c == '_')
                            && methods.iter().all(|m| m.name != n)
                    },
                );
                let mut meta = gen_meta(src, cfg);
                if src.chance(1, 8) {
                    meta.push(("idempotent".into(), None));
                }
                methods.push(MethodDef {
                    name,
                    req,
                    resp,
                    streaming: src.weighted(&[3, 1, 1, 1]) as u8,
                    doc: gen_doc(src, cfg.docs),
                    meta,
                    empty_meta: src.chance(1, 8),
                });
            }
            if methods.is_empty() {
                continue;
            }
            let doc = gen_doc(src, cfg.docs);
            s.rpcs.push(RpcDef { ns, name, methods, doc });
        }
        // root types and order
        for t in 0..n_tab {
            if src.chance(1, 4) {
                s.tables[t].root = true;
            }
        }
        let mut order: Vec<ItemRef> = (0..s.enums.len())
            .map(ItemRef::Enum)
            .chain((0..n_tab).map(ItemRef::Table))
            .chain((0..s.unions.len()).map(ItemRef::Union))
            .chain((0..s.rpcs.len()).map(ItemRef::Rpc))
            .chain((0..n_tab).filter(|t| s.tables[*t].root).map(ItemRef::Root))
            .collect();
        src.shuffle(&mut order);
        // what is outside all namespaces comes first
        order.sort_by_key(|i| s.ns_of(*i) != 0);
        if src.flag() {
            // keep namespaces together
            order.sort_by_key(|i| s.ns_of(*i));
        }
        s.order = order;
        s.full_paths = src.chance(1, 5);
        if src.chance(1, 6) {
            for i in 0..src.range(1, 4) {
                let p = src.pick(&["common/base.fbs", "a.fbs", "../up.fbs", "a b.fbs", "noext"]).to_string();
                s.includes.push((gen_doc(src, cfg.docs), if i == 0 { p } else { format!("{}/{}", i, p) }));
            }
        }
        s
    }

    pub fn ns_of(&self, i: ItemRef) -> usize {
        match i {
            ItemRef::Table(t) | ItemRef::Root(t) => self.tables[t].ns,
            ItemRef::Enum(t) => self.enums[t].ns,
            ItemRef::Union(t) => self.unions[t].ns,
            ItemRef::Rpc(t) => self.rpcs[t].ns,
        }
    }

    /// Can something in namespace `from` refer to something in `to`?
    pub fn visible(&self, from: usize, to: usize) -> bool {
        from == to || to != 0
    }

    fn pick_table(&self, ns: usize, src: &mut Src) -> Option<usize> {
        let c: Vec<usize> = (0..self.tables.len())
            .filter(|t| self.visible(ns, self.tables[*t].ns))
            .collect();
        if c.is_empty() {
            None
        } else {
            Some(*src.pick(&c))
        }
    }
    fn pick_enum(&self, ns: usize, src: &mut Src) -> Option<usize> {
        let c: Vec<usize> = (0..self.enums.len())
            .filter(|t| self.visible(ns, self.enums[*t].ns))
            .collect();
        if c.is_empty() {
            None
        } else {
            Some(*src.pick(&c))
        }
    }
    fn pick_union(&self, ns: usize, src: &mut Src) -> Option<usize> {
        let c: Vec<usize> = (0..self.unions.len())
            .filter(|t| self.visible(ns, self.unions[*t].ns))
            .collect();
        if c.is_empty() {
            None
        } else {
            Some(*src.pick(&c))
        }
    }

    pub fn gen_field(&self, t: usize, src: &mut Src, cfg: &Cfg) -> Option<FieldDef> {
        let ns = self.tables[t].ns;
        let ty = self.gen_type(ns, src, cfg, 0)?;
        let fs = &self.tables[t].fields;
        // accessor names, with those of union companions
        let mut used: BTreeSet<String> = BTreeSet::new();
        for f in fs {
            used.insert(snake(&f.name));
            if let Ty::Union(_) = f.ty {
                used.insert(type_field(&f.name));
                used.insert(snake(&type_field(&f.name)));
            }
        }
        used.insert("create".into());
        used.insert("get_root".into());
        let union = matches!(ty, Ty::Union(_));
        let name = unique(
            src,
            &format!("f{}f", fs.len()),
            |src| match fs.len() {
                n if n > 0 && src.chance(1, 10) => alike(&fs[src.below(n)].name, src),
                _ => any_name(src, cfg.odd),
            },
            |n| {
                !used.contains(&snake(n))
                    && (!union || (!used.contains(&type_field(n)) && !used.contains(&snake(&type_field(n)))))
            },
        );
        let mut required = src.chance(cfg.required, 8);
        // a value of the table must be possible
        if required {
            required = match &ty {
                Ty::Table(u) => *u < t,
                Ty::Union(u) => self.unions[*u].vars.iter().any(|v| *v < t),
                _ => true,
            };
        }
        let default = match &ty {
            Ty::Sc(sc, _) if src.chance(cfg.defaults, 8) => Some(gen_default(*sc, src)),
            Ty::Enum(e) if src.chance(cfg.defaults, 8) => {
                let v = src.pick(&self.enums[*e].vars).name.clone();
                if word_lit(&v).is_some() {
                    None
                } else {
                    Some(RDefault::Ident(v))
                }
            }
            _ => None,
        };
        Some(FieldDef {
            name,
            ty,
            default,
            required,
            doc: gen_doc(src, cfg.docs),
            meta: gen_meta(src, cfg),
        })
    }

    fn gen_type(&self, ns: usize, src: &mut Src, cfg: &Cfg, depth: usize) -> Option<Ty> {
        let mut w = cfg.types;
        if depth > 0 {
            w[4] = 0;
            w[5] = if depth < 6 { (w[5] + 4) / 5 } else { 0 };
        }
        Some(match src.weighted(&w) {
            0 => {
                let (sc, n) = gen_sc(src);
                Ty::Sc(sc, n)
            }
            1 => Ty::Str,
            2 => Ty::Enum(self.pick_enum(ns, src)?),
            3 => Ty::Table(self.pick_table(ns, src)?),
            4 => Ty::Union(self.pick_union(ns, src)?),
            _ => Ty::Vec(Box::new(self.gen_type(ns, src, cfg, depth + 1)?)),
        })
    }

    // ------------------------------------------------------------ as written

    fn path(&self, from: usize, to: usize, name: &str) -> Vec<String> {
        if from == to && !(self.full_paths && to != 0) {
            vec![name.to_string()]
        } else {
            let mut p = self.spaces[to].clone();
            p.push(name.to_string());
            p
        }
    }

    pub fn raw_ty(&self, ns: usize, t: &Ty) -> RTy {
        match t {
            Ty::Sc(_, n) => RTy::Named(n),
            Ty::Str => RTy::Named("string"),
            Ty::Enum(e) => RTy::Path(self.path(ns, self.enums[*e].ns, &self.enums[*e].name)),
            Ty::Table(e) => RTy::Path(self.path(ns, self.tables[*e].ns, &self.tables[*e].name)),
            Ty::Union(e) => RTy::Path(self.path(ns, self.unions[*e].ns, &self.unions[*e].name)),
            Ty::Vec(t) => RTy::Vec(Box::new(self.raw_ty(ns, t))),
        }
    }

    pub fn raw_item(&self, i: ItemRef) -> El {
        match i {
            ItemRef::Root(t) => El::Root(vec![], self.tables[t].name.clone()),
            ItemRef::Table(t) => {
                let t = &self.tables[t];
                El::Table(
                    t.doc.clone(),
                    t.name.clone(),
                    t.meta.clone(),
                    t.fields
                        .iter()
                        .map(|f| {
                            let mut m = f.meta.clone();
                            if f.required {
                                m.push(("required".into(), None));
                            }
                            RField {
                                doc: f.doc.clone(),
                                id: f.name.clone(),
                                ty: self.raw_ty(t.ns, &f.ty),
                                default: f.default.clone(),
                                meta: if m.is_empty() { None } else { Some(m) },
                            }
                        })
                        .collect(),
                )
            }
            ItemRef::Enum(e) => {
                let e = &self.enums[e];
                El::Enum(
                    e.doc.clone(),
                    e.name.clone(),
                    RTy::Named(e.base_name),
                    e.meta.clone(),
                    e.vars
                        .iter()
                        .map(|v| RVar {
                            doc: v.doc.clone(),
                            id: v.name.clone(),
                            value: v.value.clone(),
                        })
                        .collect(),
                    e.trailing,
                )
            }
            ItemRef::Union(u) => {
                let u = &self.unions[u];
                El::Union(
                    u.doc.clone(),
                    u.name.clone(),
                    u.meta.clone(),
                    (0..u.vars.len())
                        .map(|k| RVar {
                            doc: u.docs[k].clone(),
                            id: self.tables[u.vars[k]].name.clone(),
                            value: u.values[k].clone(),
                        })
                        .collect(),
                    u.trailing,
                )
            }
            ItemRef::Rpc(r) => {
                let r = &self.rpcs[r];
                El::Rpc(
                    r.doc.clone(),
                    r.name.clone(),
                    r.methods
                        .iter()
                        .map(|m| {
                            let mut meta = m.meta.clone();
                            if m.streaming > 0 {
                                let s = ["", "client", "server", "bidi"][m.streaming as usize];
                                meta.push(("streaming".into(), Some(RSingle::Str(s.into()))));
                            }
                            RMethod {
                                doc: m.doc.clone(),
                                id: m.name.clone(),
                                req: self.path(r.ns, self.tables[m.req].ns, &self.tables[m.req].name),
                                resp: self.path(r.ns, self.tables[m.resp].ns, &self.tables[m.resp].name),
                                meta: if meta.is_empty() && !m.empty_meta { None } else { Some(meta) },
                            }
                        })
                        .collect(),
                )
            }
        }
    }

    /// The schema as a file, declarations in the given order.
    pub fn raw_in(&self, order: &[ItemRef]) -> Raw {
        let mut els = vec![];
        let mut ns = 0;
        for i in order {
            let n = self.ns_of(*i);
            if n != ns {
                els.push(El::Ns(self.ns_docs[n].clone(), self.spaces[n].clone()));
                ns = n;
            }
            els.push(self.raw_item(*i));
        }
        Raw {
            includes: self.includes.clone(),
            els,
        }
    }
    pub fn raw(&self) -> Raw {
        self.raw_in(&self.order)
    }
    pub fn text(&self) -> String {
        plain(&self.raw())
    }

    // ------------------------------------------------------------- meaning

    /// Slot of each field; a union's type comes right before its value.
    pub fn slots(&self, t: usize) -> Vec<u16> {
        let mut n = 0;
        let mut out = vec![];
        for f in &self.tables[t].fields {
            if let Ty::Union(_) = f.ty {
                n += 1;
            }
            out.push(n);
            n += 1;
        }
        out
    }
    /// The value a scalar or enum field has when it is not stored.
    pub fn read_default(&self, f: &FieldDef) -> Option<u64> {
        match (&f.ty, &f.default) {
            (Ty::Sc(sc, _), Some(RDefault::Lit(l))) => Some(default_bits(*sc, l)),
            (Ty::Sc(_, _), _) => Some(0),
            (Ty::Enum(e), Some(RDefault::Ident(i))) => {
                let e = &self.enums[*e];
                let k = e.vars.iter().position(|v| v.name == *i).unwrap();
                Some(e.bits()[k])
            }
            _ => None,
        }
    }
    /// The value a scalar or enum field gets when the caller does not say.
    pub fn args_default(&self, f: &FieldDef) -> u64 {
        match (&f.ty, self.read_default(f)) {
            (_, Some(b)) => b,
            (Ty::Enum(e), None) => self.enums[*e].bits()[0],
            _ => panic!("no default"),
        }
    }
    pub fn is_scalar(t: &Ty) -> bool {
        matches!(t, Ty::Sc(..) | Ty::Enum(_))
    }
    /// Do the arguments of this table have defaults?
    pub fn has_default(&self, t: usize) -> bool {
        self.tables[t].fields.iter().all(|f| !f.required || Self::is_scalar(&f.ty))
    }
    pub fn wire_sc(&self, t: &Ty) -> Option<Sc> {
        match t {
            Ty::Sc(sc, _) => Some(*sc),
            Ty::Enum(e) => Some(self.enums[*e].base),
            _ => None,
        }
    }
}
