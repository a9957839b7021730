//! C15: names mean what the schema says; C24: services reach the callback.

use crate::comp::*;
use crate::total::small;
use butte_build::codegen::RpcGenerator;
use butte_build::ir::types as ir;
use model::raw::*;
use model::schema::*;
use proc_macro2::TokenStream;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vpbt::{Ctx, Src};

fn parts(q: &ir::QualifiedIdent) -> Vec<String> {
    q.parts.iter().map(|p| p.raw.to_string()).collect()
}

/// Where a definition lives, in the names the intermediate form uses.
fn home(s: &Schema, ns: usize, name: &str) -> Vec<String> {
    let mut p: Vec<String> = s.spaces[ns].iter().map(|x| fix(x)).collect();
    p.push(fix(name));
    p
}

pub fn cfg(src: &mut Src) -> Cfg {
    let big = src.size as usize / 25;
    Cfg {
        tables: 3 + 2 * big,
        fields: 4 + big,
        enums: 2 + big,
        unions: 1 + big,
        rpcs: 2,
        spaces: 1 + big,
        types: [2, 1, 4, 6, 4, 3],
        ..Cfg::default()
    }
}

/// An order the language allows: what is outside all namespaces comes first.
pub fn reorder(s: &Schema, src: &mut Src) -> Vec<ItemRef> {
    let mut o = s.order.clone();
    src.shuffle(&mut o);
    o.sort_by_key(|i| s.ns_of(*i) != 0);
    o
}

pub fn c15_resolve(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = cfg(src);
    let s = Schema::gen(src, &c);
    let text = s.text();
    cx.describe(|| clip(&text));
    // every order of the declarations means the same, and so does every way to write a reference
    let order = reorder(&s, src);
    let mut s2 = s.clone();
    s2.full_paths = src.flag();
    let text2 = plain(&s2.raw_in(&order));
    let (a, b) = (must(&text)?, must(&text2)?);
    let (a, b) = (items(&a, &text)?, items(&b, &text2)?);
    if a != b {
        for (k, v) in &a {
            if b.get(k) != Some(v) {
                return Err(format!("the code generated for {} depends on the order of declarations:\n{}", k, clip(&text2)));
            }
        }
        return Err(format!("another order of declarations gives more code:\n{}", clip(&text2)));
    }
    cx.label_if(s.spaces.len() > 1, "namespaces");
    cx.label_if(!s.unions.is_empty(), "unions");
    if s.tables.len() + s.enums.len() + s.unions.len() >= 3 && text2 != text {
        cx.nontrivial_bytes(text2.as_bytes());
    }
    Ok(())
}

/// Generated items by module, in no particular order.
pub fn items(code: &str, text: &str) -> Result<BTreeMap<String, Vec<String>>, String> {
    let f = syn::parse_file(code).map_err(|e| format!("the generated code does not parse ({}) for:\n{}", e, clip(text)))?;
    fn walk(items: &[syn::Item], at: &str, m: &mut BTreeMap<String, Vec<String>>) {
        for i in items {
            match i {
                syn::Item::Mod(x) if x.content.is_some() => {
                    let p = format!("{}::{}", at, x.ident);
                    walk(&x.content.as_ref().unwrap().1, &p, m);
                }
                _ => m.entry(at.to_string()).or_default().push(quote::quote!(#i).to_string()),
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(&f.items, "crate", &mut m);
    m.values_mut().for_each(|v| v.sort());
    Ok(m)
}

/// Schemas with one thing wrong are refused, in every order.
pub fn c15_errors(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = cfg(src);
    let s = Schema::gen(src, &c);
    let order = reorder(&s, src);
    let mut raw = s.raw_in(&order);
    // (element index, namespace it is in)
    let mut tabs = vec![];
    let mut enums = vec![];
    let mut unions = vec![];
    let mut rpcs = vec![];
    for (i, e) in raw.els.iter().enumerate() {
        match e {
            El::Table(..) => tabs.push(i),
            El::Enum(..) => enums.push(i),
            El::Union(..) => unions.push(i),
            El::Rpc(..) => rpcs.push(i),
            _ => {}
        }
    }
    let nowhere = || vec!["Nowhere_9".to_string()];
    let ns_of = |raw: &Raw, i: usize| -> Vec<String> {
        raw.els[..=i]
            .iter()
            .rev()
            .find_map(|e| match e {
                El::Ns(_, p) => Some(p.clone()),
                _ => None,
            })
            .unwrap_or_default()
    };
    let what;
    let kind = src.below(13);
    match kind {
        0 => {
            // a field of an undefined type
            let i = *src.pick(&tabs);
            let mut ty = match src.below(4) {
                0 => RTy::Path(nowhere()),
                1 => {
                    let mut p = ns_of(&raw, i);
                    p.extend(nowhere());
                    RTy::Path(p)
                }
                2 => RTy::Path(vec!["nospace_9".into(), s.tables[0].name.clone()]),
                _ => {
                    // a type that exists, but somewhere else
                    let here = ns_of(&raw, i);
                    let t = src.below(s.tables.len());
                    let name = &s.tables[t].name;
                    if s.spaces[s.tables[t].ns] == here || in_space(&s, &here, name) {
                        RTy::Path(nowhere())
                    } else {
                        RTy::Path(vec![name.clone()])
                    }
                }
            };
            if src.flag() {
                ty = RTy::Vec(Box::new(ty));
            }
            add_field(&mut raw.els[i], "zz9", ty, None, src);
            what = "field of an undefined type";
        }
        1 => {
            // the same name twice
            let all: Vec<usize> = tabs.iter().chain(&enums).chain(&unions).copied().collect();
            let i = *src.pick(&all);
            let name = match &raw.els[i] {
                El::Table(_, n, _, _) | El::Enum(_, n, _, _, _, _) | El::Union(_, n, _, _, _) => n.clone(),
                _ => unreachable!(),
            };
            let variant = tabs
                .iter()
                .find(|t| ns_of(&raw, **t) == ns_of(&raw, i))
                .map(|t| match &raw.els[*t] {
                    El::Table(_, n, _, _) => n.clone(),
                    _ => unreachable!(),
                });
            let e = match (src.below(3), variant) {
                (0, _) => El::Table(vec![], name, None, vec![]),
                (1, Some(v)) => El::Union(
                    vec![],
                    name,
                    None,
                    vec![RVar {
                        doc: vec![],
                        id: v,
                        value: None,
                    }],
                    false,
                ),
                _ => El::Enum(
                    vec![],
                    name,
                    RTy::Named("int"),
                    None,
                    vec![RVar {
                        doc: vec![],
                        id: "A".into(),
                        value: None,
                    }],
                    false,
                ),
            };
            // anywhere in the namespace, which may be left and entered again
            let here = ns_of(&raw, i);
            let n = raw.els.len();
            let at: Vec<usize> = (0..=n)
                .filter(|j| if *j == 0 { here.is_empty() } else { ns_of(&raw, *j - 1) == here })
                .collect();
            let j = *src.pick(&at);
            raw.els.insert(j, e);
            what = "two definitions of one name";
        }
        2 => {
            // a root that is no table
            let all: Vec<usize> = enums.iter().chain(&unions).copied().collect();
            if all.is_empty() {
                let i = *src.pick(&tabs);
                raw.els.insert(i, El::Root(vec![], nowhere().remove(0)));
            } else {
                let i = *src.pick(&all);
                let name = match &raw.els[i] {
                    El::Enum(_, n, _, _, _, _) | El::Union(_, n, _, _, _) => n.clone(),
                    _ => unreachable!(),
                };
                let j = if src.flag() { i } else { i + 1 };
                raw.els.insert(j, El::Root(vec![], name));
            }
            what = "root type that is no table";
        }
        3 => {
            let i = *src.pick(&tabs);
            raw.els.insert(i, El::Root(vec![], nowhere().remove(0)));
            what = "undefined root type";
        }
        4 | 5 => {
            // services over things that are no tables
            let i = *src.pick(&tabs);
            let here = ns_of(&raw, i);
            let tab = match &raw.els[i] {
                El::Table(_, n, _, _) => vec![n.clone()],
                _ => unreachable!(),
            };
            let others: Vec<String> = enums
                .iter()
                .chain(&unions)
                .filter(|j| ns_of(&raw, **j) == here)
                .map(|j| match &raw.els[*j] {
                    El::Enum(_, n, _, _, _, _) | El::Union(_, n, _, _, _) => n.clone(),
                    _ => unreachable!(),
                })
                .collect();
            let bad = if others.is_empty() || kind == 4 {
                nowhere()
            } else {
                vec![src.pick(&others).clone()]
            };
            let (req, resp) = if src.flag() { (bad, tab) } else { (tab, bad) };
            let m = RMethod {
                doc: vec![],
                id: "call".into(),
                req,
                resp,
                meta: None,
            };
            raw.els.insert(i, El::Rpc(vec![], "Service9".into(), vec![m]));
            what = "service over something that is no table";
        }
        6 => {
            if unions.is_empty() {
                let i = *src.pick(&tabs);
                raw.els.insert(
                    i,
                    El::Union(
                        vec![],
                        "Union9".into(),
                        None,
                        vec![RVar {
                            doc: vec![],
                            id: nowhere().remove(0),
                            value: None,
                        }],
                        false,
                    ),
                );
            } else {
                let i = *src.pick(&unions);
                if let El::Union(_, _, _, vs, _) = &mut raw.els[i] {
                    let k = src.below(vs.len() + 1);
                    vs.insert(
                        k,
                        RVar {
                            doc: vec![],
                            id: nowhere().remove(0),
                            value: None,
                        },
                    );
                }
            }
            what = "union of an undefined type";
        }
        12 => {
            // a union of something that is no table
            let i = *src.pick(&tabs);
            let here = ns_of(&raw, i);
            let mut others: Vec<String> = enums
                .iter()
                .chain(&unions)
                .filter(|j| ns_of(&raw, **j) == here)
                .map(|j| match &raw.els[*j] {
                    El::Enum(_, n, _, _, _, _) | El::Union(_, n, _, _, _) => n.clone(),
                    _ => unreachable!(),
                })
                .collect();
            if others.is_empty() {
                let v = RVar {
                    doc: vec![],
                    id: "A".into(),
                    value: None,
                };
                others.push("Enum9".into());
                raw.els.insert(i, El::Enum(vec![], "Enum9".into(), RTy::Named("int"), None, vec![v], false));
            }
            let var = |id: String| RVar {
                doc: vec![],
                id,
                value: None,
            };
            let mut vs = vec![var(src.pick(&others).clone())];
            if src.flag() {
                let t = tabs.iter().find_map(|t| match &raw.els.get(*t) {
                    Some(El::Table(_, n, _, _)) if ns_of(&raw, *t) == here => Some(n.clone()),
                    _ => None,
                });
                vs.extend(t.map(var));
            }
            if src.flag() {
                vs.reverse();
            }
            let at = if src.flag() { i } else { i + 1 };
            raw.els.insert(at, El::Union(vec![], "Union9".into(), None, vs, false));
            what = "union of something that is no table";
        }
        7 => {
            // a default no field of the type can hold
            let i = *src.pick(&tabs);
            let (ty, d) = bad_default(&s, &ns_of(&raw, i), src);
            add_field(&mut raw.els[i], "zz9", ty, Some(d), src);
            what = "default value of another type or out of range";
        }
        8 => {
            // streaming
            let i = *src.pick(&tabs);
            let tab = match &raw.els[i] {
                El::Table(_, n, _, _) => vec![n.clone()],
                _ => unreachable!(),
            };
            let v = match src.below(4) {
                0 => None,
                1 => Some(RSingle::Str("both".into())),
                2 => Some(RSingle::Str("Client".into())),
                _ => Some(RSingle::Lit(Lit {
                    num: Num::Int(1),
                    text: "1".into(),
                })),
            };
            let m = RMethod {
                doc: vec![],
                id: "call".into(),
                req: tab.clone(),
                resp: tab,
                meta: Some(vec![("streaming".into(), v)]),
            };
            raw.els.insert(i, El::Rpc(vec![], "Service9".into(), vec![m]));
            what = "unknown kind of streaming";
        }
        9 => {
            let t = *src.pick(&["float", "double", "bool", "string", "float32", "float64"]);
            let ty = match src.below(3) {
                0 => RTy::Named(t),
                1 => RTy::Vec(Box::new(RTy::Named("int"))),
                _ => RTy::Path(vec![s.tables[0].name.clone()]),
            };
            raw.els.insert(
                src.below(raw.els.len() + 1),
                El::Enum(
                    vec![],
                    "Enum9".into(),
                    ty,
                    None,
                    vec![RVar {
                        doc: vec![],
                        id: "A".into(),
                        value: None,
                    }],
                    false,
                ),
            );
            what = "enum over something that is no integer";
        }
        10 => {
            let j = src.below(raw.els.len() + 1);
            let e = match src.below(5) {
                0 => El::Struct(
                    vec![],
                    "Struct9".into(),
                    None,
                    vec![RField {
                        doc: vec![],
                        id: "x".into(),
                        ty: RTy::Named("int"),
                        default: None,
                        meta: None,
                    }],
                ),
                1 => El::Attr(vec![], "priority".into(), true),
                2 => El::Ident(vec![], "ABCD".into()),
                3 => El::Ext(vec![], "bin".into()),
                _ => El::Object(vec![], vec![]),
            };
            raw.els.insert(j, e);
            what = "declaration without support";
        }
        _ => {
            // a cycle of references must not hide an undefined one
            let i = *src.pick(&tabs);
            raw.els.insert(
                i,
                El::Table(
                    vec![],
                    "Cyc9".into(),
                    None,
                    vec![
                        RField {
                            doc: vec![],
                            id: "a".into(),
                            ty: RTy::Path(vec!["Cyc8".into()]),
                            default: None,
                            meta: None,
                        },
                        RField {
                            doc: vec![],
                            id: "b".into(),
                            ty: RTy::Path(nowhere()),
                            default: None,
                            meta: None,
                        },
                    ],
                ),
            );
            raw.els.insert(
                i,
                El::Table(
                    vec![],
                    "Cyc8".into(),
                    None,
                    vec![RField {
                        doc: vec![],
                        id: "a".into(),
                        ty: RTy::Path(vec!["Cyc9".into()]),
                        default: None,
                        meta: None,
                    }],
                ),
            );
            what = "undefined type behind a cycle";
        }
    }
    let text = plain(&raw);
    cx.describe(|| format!("{}: {}", what, clip(&text)));
    match compile(&text) {
        Err(p) => return Err(format!("{}: the compiler panicked: {}\n{}", what, p, clip(&text))),
        Ok(Ok(_)) => return Err(format!("{} went unnoticed:\n{}", what, clip(&text))),
        Ok(Err(_)) => {}
    }
    cx.label(what);
    cx.nontrivial_bytes(text.as_bytes());
    Ok(())
}

fn in_space(s: &Schema, ns: &[String], name: &str) -> bool {
    let f = fix(name);
    s.tables.iter().any(|t| s.spaces[t.ns] == ns && fix(&t.name) == f)
        || s.enums.iter().any(|t| s.spaces[t.ns] == ns && fix(&t.name) == f)
        || s.unions.iter().any(|t| s.spaces[t.ns] == ns && fix(&t.name) == f)
}

fn add_field(e: &mut El, id: &str, ty: RTy, default: Option<RDefault>, src: &mut Src) {
    if let El::Table(_, _, _, fs) = e {
        let k = src.below(fs.len() + 1);
        fs.insert(
            k,
            RField {
                doc: vec![],
                id: id.into(),
                ty,
                default,
                meta: None,
            },
        );
    }
}

fn bad_default(s: &Schema, here: &[String], src: &mut Src) -> (RTy, RDefault) {
    let int = |v: i128| {
        RDefault::Lit(Lit {
            num: Num::Int(v),
            text: v.to_string(),
        })
    };
    let text = |t: &str| {
        RDefault::Lit(Lit {
            num: Num::Float(1.5),
            text: t.to_string(),
        })
    };
    let word = |w: &str| match word_lit(w) {
        Some(l) => RDefault::Lit(l),
        None => RDefault::Ident(w.to_string()),
    };
    let ints = [
        "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "int8", "uint8", "int16", "uint16",
        "int32", "uint32", "int64", "uint64",
    ];
    match src.below(9) {
        0 => {
            let n = *src.pick(&ints);
            let (lo, hi) = sc_range(sc_of(n).unwrap());
            (RTy::Named(n), int(if src.flag() { lo - 1 } else { hi + 1 }))
        }
        1 => (RTy::Named(src.pick(&ints)), text("1.5")),
        2 => (RTy::Named(src.pick(&ints)), word(src.pick(&["true", "false", "Red", "nan", "inf"]))),
        3 => (RTy::Named("bool"), if src.flag() { int(2) } else { text("0.5") }),
        4 => (RTy::Named("string"), if src.flag() { int(0) } else { word("abc") }),
        5 => (RTy::Vec(Box::new(RTy::Named("int"))), int(0)),
        6 => (
            RTy::Named(src.pick(&["float", "double", "float32", "float64"])),
            word(src.pick(&["true", "Red", "x"])),
        ),
        7 => (RTy::Named(src.pick(&["float", "float32"])), {
            RDefault::Lit(Lit {
                num: Num::Float(1e300),
                text: "1e300".into(),
            })
        }),
        _ => {
            // an enum, and a name that is no variant of it
            let es: Vec<&EnumDef> = s.enums.iter().filter(|e| s.spaces[e.ns] == here).collect();
            if es.is_empty() {
                (RTy::Named("int"), text("2.5"))
            } else {
                let e = *src.pick(&es);
                let d = match src.below(3) {
                    0 => word("Variant_99"),
                    1 => text("1.0"),
                    _ => word("true"),
                };
                (RTy::Path(vec![e.name.clone()]), d)
            }
        }
    }
}

// ---------------------------------------------------------------------- C24

#[derive(Clone, Debug, PartialEq)]
struct SeenMethod {
    name: String,
    snake: String,
    req: Vec<String>,
    resp: Vec<String>,
    streaming: u8,
    doc: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    path: Vec<String>,
    methods: Vec<SeenMethod>,
    doc: Vec<String>,
}

struct Recorder(Arc<Mutex<Vec<Seen>>>);

fn lines(c: &butte_build::ast::types::Comment) -> Vec<String> {
    c.lines.iter().map(|l| l.to_string()).collect()
}

impl RpcGenerator for Recorder {
    fn generate<'a>(&mut self, rpc: &ir::Rpc<'a>, ts: &mut TokenStream) {
        let mut v = self.0.lock().unwrap();
        let n = v.len();
        let name = proc_macro2::Ident::new(&format!("service_marker_{}", n), proc_macro2::Span::call_site());
        v.push(Seen {
            path: parts(&rpc.ident),
            doc: lines(&rpc.doc),
            methods: rpc
                .methods
                .iter()
                .map(|m| SeenMethod {
                    name: m.ident.raw.to_string(),
                    snake: m.snake_ident.raw.to_string(),
                    req: parts(&m.request_type),
                    resp: parts(&m.response_type),
                    streaming: match m.metadata.streaming {
                        ir::RpcStreaming::None => 0,
                        ir::RpcStreaming::Client => 1,
                        ir::RpcStreaming::Server => 2,
                        ir::RpcStreaming::Bidi => 3,
                    },
                    doc: lines(&m.doc),
                })
                .collect(),
        });
        ts.extend(quote::quote!(pub const #name: u8 = 0;));
    }
}

pub fn c24(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = Cfg {
        rpcs: 4,
        docs: 3,
        ..small()
    };
    let s = Schema::gen(src, &c);
    let text = s.text();
    cx.describe(|| clip(&text));
    let log = Arc::new(Mutex::new(vec![]));
    let code = match compile_with(&text, true, Some(Box::new(Recorder(log.clone())))) {
        Err(p) => return Err(format!("the compiler panicked: {}\n{}", p, clip(&text))),
        Ok(Err(e)) => return Err(format!("a valid schema was refused: {}\n{}", clip(&e), clip(&text))),
        Ok(Ok(c)) => c,
    };
    let seen = log.lock().unwrap().clone();
    let mut want: Vec<(usize, Seen)> = vec![];
    for i in &s.order {
        if let ItemRef::Rpc(r) = i {
            let r = &s.rpcs[*r];
            want.push((
                r.ns,
                Seen {
                    path: home(&s, r.ns, &r.name),
                    doc: r.doc.clone(),
                    methods: r
                        .methods
                        .iter()
                        .map(|m| SeenMethod {
                            name: fix(&m.name),
                            snake: snake(&m.name),
                            req: home(&s, s.tables[m.req].ns, &s.tables[m.req].name),
                            resp: home(&s, s.tables[m.resp].ns, &s.tables[m.resp].name),
                            streaming: m.streaming,
                            doc: m.doc.clone(),
                        })
                        .collect(),
                },
            ));
        }
    }
    if seen.len() != want.len() {
        return Err(format!("{} services, but {} calls\n{}", want.len(), seen.len(), clip(&text)));
    }
    // services of one namespace come in the order of declaration
    for ns in 0..s.spaces.len() {
        let w: Vec<&Seen> = want.iter().filter(|x| x.0 == ns).map(|x| &x.1).collect();
        let at: Vec<String> = s.spaces[ns].iter().map(|x| fix(x)).collect();
        let g: Vec<&Seen> = seen.iter().filter(|x| x.path[..x.path.len() - 1] == at[..]).collect();
        if w != g {
            return Err(format!("expected {:?}, got {:?}\n{}", w, g, clip(&text)));
        }
    }
    // what the callback adds lies in the module of the service's namespace; nothing else changes
    let with = items(&code, &text)?;
    let without = items(&must(&text)?, &text)?;
    let mut expect = without.clone();
    for (i, x) in seen.iter().enumerate() {
        let m = std::iter::once("crate".to_string())
            .chain(x.path[..x.path.len() - 1].iter().map(|p| snake(p)))
            .collect::<Vec<_>>()
            .join("::");
        expect
            .entry(m)
            .or_default()
            .push(format!("pub const service_marker_{} : u8 = 0 ;", i));
    }
    expect.values_mut().for_each(|v| v.sort());
    if with != expect {
        return Err(format!("the callback's code is not where it belongs:\n{}", clip(&text)));
    }
    // services without a callback leave no trace but the module they are in
    let mut bare = s.clone();
    bare.rpcs.clear();
    bare.order.retain(|i| !matches!(i, ItemRef::Rpc(_)));
    if items(&must(&bare.text())?, &text)? != without {
        return Err(format!("services change the code even without a callback:\n{}", clip(&text)));
    }
    if !want.is_empty() {
        cx.nontrivial_bytes(text.as_bytes());
    }
    for (_, w) in &want {
        for m in &w.methods {
            cx.label(["no streaming", "client streaming", "server streaming", "bidi streaming"][m.streaming as usize]);
        }
    }
    Ok(())
}
