//! Schema files as written: an owned syntax tree, its tokens, random layout,
//! and a token-level parser written from the grammar.

use vpbt::Src;

pub type Doc = Vec<String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    Int(i128),
    Float(f64),
    Bool(bool),
}

/// A literal with the text it is written as.
#[derive(Clone, Debug)]
pub struct Lit {
    pub num: Num,
    pub text: String,
}

impl PartialEq for Lit {
    fn eq(&self, o: &Lit) -> bool {
        match (&self.num, &o.num) {
            (Num::Float(a), Num::Float(b)) => same_f64(*a, *b),
            (a, b) => a == b,
        }
    }
}

pub fn same_f64(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
}

#[derive(Clone, Debug, PartialEq)]
pub enum RSingle {
    Lit(Lit),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum RValue {
    Single(RSingle),
    Obj(Doc, Vec<(String, RValue)>),
    List(Vec<RValue>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum RDefault {
    Lit(Lit),
    Ident(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum RTy {
    Named(&'static str),
    Vec(Box<RTy>),
    Path(Vec<String>),
}

pub const TYPE_NAMES: [&str; 22] = [
    "bool", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "long", "ulong", "double",
    "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64",
    "string",
];

pub type RMeta = Option<Vec<(String, Option<RSingle>)>>;

#[derive(Clone, Debug, PartialEq)]
pub struct RField {
    pub doc: Doc,
    pub id: String,
    pub ty: RTy,
    pub default: Option<RDefault>,
    pub meta: RMeta,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RVar {
    pub doc: Doc,
    pub id: String,
    pub value: Option<Lit>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RMethod {
    pub doc: Doc,
    pub id: String,
    pub req: Vec<String>,
    pub resp: Vec<String>,
    pub meta: RMeta,
}

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    Ns(Doc, Vec<String>),
    Table(Doc, String, RMeta, Vec<RField>),
    Struct(Doc, String, RMeta, Vec<RField>),
    Enum(Doc, String, RTy, RMeta, Vec<RVar>, bool),
    Union(Doc, String, RMeta, Vec<RVar>, bool),
    Root(Doc, String),
    Ext(Doc, String),
    Ident(Doc, String),
    Attr(Doc, String, bool),
    Rpc(Doc, String, Vec<RMethod>),
    Object(Doc, Vec<(String, RValue)>),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Raw {
    pub includes: Vec<(Doc, String)>,
    pub els: Vec<El>,
}

// ------------------------------------------------------------------ tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    /// a number with its sign
    Num(Lit),
    Str(String),
    P(char),
    Doc(String),
}

#[derive(Default)]
pub struct Toks(pub Vec<Tok>);

impl Toks {
    fn w(&mut self, s: &str) {
        self.0.push(Tok::Word(s.to_string()));
    }
    fn p(&mut self, c: char) {
        self.0.push(Tok::P(c));
    }
    fn s(&mut self, s: &str) {
        self.0.push(Tok::Str(s.to_string()));
    }
    fn doc(&mut self, d: &Doc) {
        for l in d {
            self.0.push(Tok::Doc(l.clone()));
        }
    }
    fn lit(&mut self, l: &Lit) {
        match l.num {
            Num::Bool(b) => self.w(if b { "true" } else { "false" }),
            Num::Float(f) if !f.is_finite() && !l.text.starts_with(['+', '-']) => self.w(&l.text),
            _ => self.0.push(Tok::Num(l.clone())),
        }
    }
    fn path(&mut self, p: &[String]) {
        for (i, s) in p.iter().enumerate() {
            if i > 0 {
                self.p('.');
            }
            self.w(s);
        }
    }
    fn single(&mut self, s: &RSingle) {
        match s {
            RSingle::Lit(l) => self.lit(l),
            RSingle::Str(s) => self.s(s),
        }
    }
    fn meta(&mut self, m: &RMeta) {
        if let Some(kv) = m {
            self.p('(');
            for (i, (k, v)) in kv.iter().enumerate() {
                if i > 0 {
                    self.p(',');
                }
                self.w(k);
                if let Some(v) = v {
                    self.p(':');
                    self.single(v);
                }
            }
            self.p(')');
        }
    }
    fn ty(&mut self, t: &RTy) {
        match t {
            RTy::Named(n) => self.w(n),
            RTy::Path(p) => self.path(p),
            RTy::Vec(t) => {
                self.p('[');
                self.ty(t);
                self.p(']');
            }
        }
    }
    fn value(&mut self, v: &RValue) {
        match v {
            RValue::Single(s) => self.single(s),
            RValue::Obj(d, kv) => self.object(d, kv),
            RValue::List(l) => {
                self.p('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        self.p(',');
                    }
                    self.value(x);
                }
                self.p(']');
            }
        }
    }
    fn object(&mut self, d: &Doc, kv: &[(String, RValue)]) {
        self.doc(d);
        self.p('{');
        for (i, (k, v)) in kv.iter().enumerate() {
            if i > 0 {
                self.p(',');
            }
            self.w(k);
            self.p(':');
            self.value(v);
        }
        self.p('}');
    }
    fn vars(&mut self, vs: &[RVar], trailing: bool) {
        self.p('{');
        for (i, v) in vs.iter().enumerate() {
            if i > 0 {
                self.p(',');
            }
            self.doc(&v.doc);
            self.w(&v.id);
            if let Some(l) = &v.value {
                self.p('=');
                self.lit(l);
            }
        }
        if trailing {
            self.p(',');
        }
        self.p('}');
    }
    fn fields(&mut self, fs: &[RField]) {
        self.p('{');
        for f in fs {
            self.doc(&f.doc);
            self.w(&f.id);
            self.p(':');
            self.ty(&f.ty);
            match &f.default {
                Some(RDefault::Lit(l)) => {
                    self.p('=');
                    self.lit(l);
                }
                Some(RDefault::Ident(i)) => {
                    self.p('=');
                    self.w(i);
                }
                None => {}
            }
            self.meta(&f.meta);
            self.p(';');
        }
        self.p('}');
    }
    pub fn raw(&mut self, r: &Raw) {
        for (d, p) in &r.includes {
            self.doc(d);
            self.w("include");
            self.s(p);
            self.p(';');
        }
        for e in &r.els {
            self.el(e);
        }
    }
    fn el(&mut self, e: &El) {
        match e {
            El::Ns(d, p) => {
                self.doc(d);
                self.w("namespace");
                self.path(p);
                self.p(';');
            }
            El::Table(d, id, m, fs) | El::Struct(d, id, m, fs) => {
                self.doc(d);
                self.w(if matches!(e, El::Table(..)) { "table" } else { "struct" });
                self.w(id);
                self.meta(m);
                self.fields(fs);
            }
            El::Enum(d, id, ty, m, vs, tr) => {
                self.doc(d);
                self.w("enum");
                self.w(id);
                self.p(':');
                self.ty(ty);
                self.meta(m);
                self.vars(vs, *tr);
            }
            El::Union(d, id, m, vs, tr) => {
                self.doc(d);
                self.w("union");
                self.w(id);
                self.meta(m);
                self.vars(vs, *tr);
            }
            El::Root(d, id) => {
                self.doc(d);
                self.w("root_type");
                self.w(id);
                self.p(';');
            }
            El::Ext(d, s) => {
                self.doc(d);
                self.w("file_extension");
                self.s(s);
                self.p(';');
            }
            El::Ident(d, s) => {
                self.doc(d);
                self.w("file_identifier");
                self.s(s);
                self.p(';');
            }
            El::Attr(d, s, q) => {
                self.doc(d);
                self.w("attribute");
                if *q {
                    self.s(s);
                } else {
                    self.w(s);
                }
                self.p(';');
            }
            El::Rpc(d, id, ms) => {
                self.doc(d);
                self.w("rpc_service");
                self.w(id);
                self.p('{');
                for m in ms {
                    self.doc(&m.doc);
                    self.w(&m.id);
                    self.p('(');
                    self.path(&m.req);
                    self.p(')');
                    self.p(':');
                    self.path(&m.resp);
                    self.meta(&m.meta);
                    self.p(';');
                }
                self.p('}');
            }
            El::Object(d, kv) => self.object(d, kv),
        }
    }
}

pub fn tokens(r: &Raw) -> Vec<Tok> {
    let mut t = Toks::default();
    t.raw(r);
    t.0
}

// ------------------------------------------------------------------ layout

#[derive(Clone, Copy)]
pub enum Layout {
    /// one blank or line break between any two tokens
    Plain,
    /// as little as possible
    Dense,
    /// anything the grammar allows
    Wild,
}

fn wordy(t: &Tok) -> bool {
    matches!(t, Tok::Word(_) | Tok::Num(_))
}

fn space(src: &mut Src, out: &mut String, must: bool) {
    let n = match src.weighted(&[6, 4, 1]) {
        0 => 0,
        1 => 1,
        _ => src.range(2, 4),
    };
    let n = n.max(must as usize);
    for _ in 0..n {
        match src.weighted(&[6, 3, 1, 1, 2]) {
            0 => out.push(' '),
            1 => out.push('\n'),
            2 => out.push('\t'),
            3 => out.push_str("\r\n"),
            _ => comment(src, out),
        }
    }
}

fn comment(src: &mut Src, out: &mut String) {
    out.push_str("//");
    let k = src.below(12);
    out.push_str(
        [
            "", " ", " note", " table X { y: int; }", " }", " ;", " \"", " // /// nested", "x", " é→🦀", " (", " ,",
        ][k],
    );
    if src.chance(1, 4) {
        out.push_str("\r\n")
    } else {
        out.push('\n')
    }
}

/// Write the tokens down. Every layout denotes the same schema.
pub fn layout(toks: &[Tok], how: Layout, src: &mut Src) -> String {
    let mut out = String::new();
    for (i, t) in toks.iter().enumerate() {
        let must = i > 0 && {
            let p = &toks[i - 1];
            (wordy(p) && wordy(t))
                || matches!((p, t), (Tok::Num(_), Tok::P('.')) | (Tok::P('.'), Tok::Num(_)))
                || matches!((p, t), (Tok::Word(w), Tok::Str(_)) if w == "include" || w == "attribute")
        };
        match how {
            Layout::Plain => {
                if i > 0 && !out.ends_with('\n') {
                    let nl = matches!(toks[i - 1], Tok::P(';') | Tok::P('{') | Tok::P('}'));
                    out.push(if nl { '\n' } else { ' ' });
                }
            }
            Layout::Dense => {
                if must {
                    out.push(' ');
                }
            }
            Layout::Wild => space(src, &mut out, must),
        }
        match t {
            Tok::Word(w) => out.push_str(w),
            Tok::Num(l) => out.push_str(&l.text),
            Tok::Str(s) => {
                out.push('"');
                out.push_str(s);
                out.push('"');
            }
            Tok::P(c) => out.push(*c),
            Tok::Doc(d) => {
                if matches!(how, Layout::Plain) && !out.is_empty() && !out.ends_with('\n') {
                    out.push('\n');
                }
                out.push_str("///");
                out.push_str(d);
                if matches!(how, Layout::Wild) && src.chance(1, 5) {
                    out.push_str("\r\n")
                } else {
                    out.push('\n')
                }
            }
        }
    }
    match how {
        Layout::Plain => out.push('\n'),
        Layout::Dense => {}
        Layout::Wild => {
            space(src, &mut out, false);
            if src.chance(1, 6) {
                out.push_str("// end of file");
            }
        }
    }
    out
}

pub fn plain(r: &Raw) -> String {
    layout(&tokens(r), Layout::Plain, &mut Src::replay(vec![]))
}

pub fn any_layout(src: &mut Src) -> Layout {
    match src.weighted(&[2, 2, 4]) {
        0 => Layout::Plain,
        1 => Layout::Dense,
        _ => Layout::Wild,
    }
}

// ----------------------------------------------------- token-level parser

/// Is this token sequence a schema, and which one? Written from the grammar:
/// one token of look-ahead, no backtracking.
pub fn parse(toks: &[Tok]) -> Option<Raw> {
    let mut p = Parser { t: toks, i: 0 };
    let mut r = Raw::default();
    while p.i < toks.len() {
        let doc = p.docs();
        if p.is_word("include") && p.kw_ok() {
            if !r.els.is_empty() {
                return None;
            }
            p.i += 1;
            let s = p.string()?;
            // a path needs a file name
            std::path::Path::new(&s).file_stem()?;
            p.eat(';')?;
            r.includes.push((doc, s));
            continue;
        }
        let e = p.element(doc)?;
        r.els.push(e);
    }
    Some(r)
}

struct Parser<'a> {
    t: &'a [Tok],
    i: usize,
}

impl Parser<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_word(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn kw_ok(&self) -> bool {
        true
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.is_p(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn word(&mut self) -> Option<String> {
        match self.peek() {
            Some(Tok::Word(w)) => {
                let w = w.clone();
                self.i += 1;
                Some(w)
            }
            _ => None,
        }
    }
    fn string(&mut self) -> Option<String> {
        match self.peek() {
            Some(Tok::Str(w)) => {
                let w = w.clone();
                self.i += 1;
                Some(w)
            }
            _ => None,
        }
    }
    fn docs(&mut self) -> Doc {
        let mut d = vec![];
        while let Some(Tok::Doc(l)) = self.peek() {
            d.push(l.clone());
            self.i += 1;
        }
        d
    }
    fn path(&mut self) -> Option<Vec<String>> {
        let mut p = vec![self.word()?];
        while self.is_p('.') {
            self.i += 1;
            p.push(self.word()?);
        }
        Some(p)
    }
    fn lit(&mut self) -> Option<Lit> {
        let l = match self.peek()? {
            Tok::Num(l) => l.clone(),
            Tok::Word(w) => word_lit(w)?,
            _ => return None,
        };
        self.i += 1;
        Some(l)
    }
    fn single(&mut self) -> Option<RSingle> {
        if let Some(Tok::Str(_)) = self.peek() {
            return Some(RSingle::Str(self.string()?));
        }
        Some(RSingle::Lit(self.lit()?))
    }
    fn meta(&mut self) -> Option<RMeta> {
        if !self.is_p('(') {
            return Some(None);
        }
        self.i += 1;
        let mut kv = vec![];
        if !self.is_p(')') {
            loop {
                let k = self.word()?;
                let v = if self.is_p(':') {
                    self.i += 1;
                    Some(self.single()?)
                } else {
                    None
                };
                kv.push((k, v));
                if self.is_p(',') {
                    self.i += 1;
                } else {
                    break;
                }
            }
        }
        self.eat(')')?;
        Some(Some(kv))
    }
    fn ty(&mut self) -> Option<RTy> {
        if self.is_p('[') {
            self.i += 1;
            let t = self.ty()?;
            self.eat(']')?;
            return Some(RTy::Vec(Box::new(t)));
        }
        if let Some(Tok::Word(w)) = self.peek() {
            if let Some(n) = TYPE_NAMES.iter().find(|n| *n == w) {
                self.i += 1;
                return Some(RTy::Named(n));
            }
        }
        Some(RTy::Path(self.path()?))
    }
    fn object(&mut self, doc: Doc) -> Option<(Doc, Vec<(String, RValue)>)> {
        self.eat('{')?;
        let mut kv = vec![];
        if !self.is_p('}') {
            loop {
                let k = self.word()?;
                self.eat(':')?;
                kv.push((k, self.value()?));
                if self.is_p(',') {
                    self.i += 1;
                } else {
                    break;
                }
            }
        }
        self.eat('}')?;
        Some((doc, kv))
    }
    fn value(&mut self) -> Option<RValue> {
        match self.peek()? {
            Tok::P('[') => {
                self.i += 1;
                let mut l = vec![];
                if !self.is_p(']') {
                    loop {
                        l.push(self.value()?);
                        if self.is_p(',') {
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                }
                self.eat(']')?;
                Some(RValue::List(l))
            }
            Tok::P('{') | Tok::Doc(_) => {
                let d = self.docs();
                let (d, kv) = self.object(d)?;
                Some(RValue::Obj(d, kv))
            }
            _ => Some(RValue::Single(self.single()?)),
        }
    }
    fn vars(&mut self) -> Option<(Vec<RVar>, bool)> {
        self.eat('{')?;
        let mut vs = vec![];
        let mut trailing = false;
        loop {
            let doc = self.docs();
            if !vs.is_empty() && self.is_p('}') && doc.is_empty() {
                trailing = true;
                break;
            }
            let id = self.word()?;
            let value = if self.is_p('=') {
                self.i += 1;
                match self.peek()? {
                    Tok::Num(l) if matches!(l.num, Num::Int(_)) => Some(self.lit()?),
                    _ => return None,
                }
            } else {
                None
            };
            vs.push(RVar { doc, id, value });
            if self.is_p(',') {
                self.i += 1;
            } else {
                break;
            }
        }
        self.eat('}')?;
        Some((vs, trailing))
    }
    fn fields(&mut self) -> Option<Vec<RField>> {
        self.eat('{')?;
        let mut fs = vec![];
        while !self.is_p('}') {
            let doc = self.docs();
            let id = self.word()?;
            self.eat(':')?;
            let ty = self.ty()?;
            let default = if self.is_p('=') {
                self.i += 1;
                match self.peek()? {
                    Tok::Word(w) if word_lit(w).is_none() => Some(RDefault::Ident(self.word()?)),
                    _ => Some(RDefault::Lit(self.lit()?)),
                }
            } else {
                None
            };
            let meta = self.meta()?;
            self.eat(';')?;
            fs.push(RField { doc, id, ty, default, meta });
        }
        self.eat('}')?;
        Some(fs)
    }
    fn element(&mut self, doc: Doc) -> Option<El> {
        if self.is_p('{') {
            let (d, kv) = self.object(doc)?;
            return Some(El::Object(d, kv));
        }
        let w = self.word()?;
        Some(match w.as_str() {
            "namespace" => {
                let p = self.path()?;
                self.eat(';')?;
                El::Ns(doc, p)
            }
            "table" | "struct" => {
                let id = self.word()?;
                let m = self.meta()?;
                let fs = self.fields()?;
                if w == "table" {
                    El::Table(doc, id, m, fs)
                } else {
                    El::Struct(doc, id, m, fs)
                }
            }
            "enum" => {
                let id = self.word()?;
                self.eat(':')?;
                let ty = self.ty()?;
                let m = self.meta()?;
                let (vs, t) = self.vars()?;
                El::Enum(doc, id, ty, m, vs, t)
            }
            "union" => {
                let id = self.word()?;
                let m = self.meta()?;
                let (vs, t) = self.vars()?;
                El::Union(doc, id, m, vs, t)
            }
            "root_type" => {
                let id = self.word()?;
                self.eat(';')?;
                El::Root(doc, id)
            }
            "file_extension" => {
                let s = self.string()?;
                self.eat(';')?;
                El::Ext(doc, s)
            }
            "file_identifier" => {
                let s = self.string()?;
                if s.len() != 4 || s.chars().count() != 4 {
                    return None;
                }
                self.eat(';')?;
                El::Ident(doc, s)
            }
            "attribute" => {
                let e = if let Some(Tok::Str(_)) = self.peek() {
                    El::Attr(doc, self.string()?, true)
                } else {
                    El::Attr(doc, self.word()?, false)
                };
                self.eat(';')?;
                e
            }
            "rpc_service" => {
                let id = self.word()?;
                self.eat('{')?;
                let mut ms = vec![];
                while !self.is_p('}') {
                    let doc = self.docs();
                    let id = self.word()?;
                    self.eat('(')?;
                    let req = self.path()?;
                    self.eat(')')?;
                    self.eat(':')?;
                    let resp = self.path()?;
                    let meta = self.meta()?;
                    self.eat(';')?;
                    ms.push(RMethod { doc, id, req, resp, meta });
                }
                self.eat('}')?;
                if ms.is_empty() {
                    return None;
                }
                El::Rpc(doc, id, ms)
            }
            _ => return None,
        })
    }
}

/// Words that are literals where a literal may stand.
pub fn word_lit(w: &str) -> Option<Lit> {
    let num = match w {
        "true" => Num::Bool(true),
        "false" => Num::Bool(false),
        "nan" => Num::Float(f64::NAN),
        "inf" | "infinity" => Num::Float(f64::INFINITY),
        _ => return None,
    };
    Some(Lit {
        num,
        text: w.to_string(),
    })
}
