//! Rust code that drives a schema's generated code through the types of
//! `model::glue`. It names every item and every type by what the schema
//! says, so it compiles only if the generated code is what it should be.

use model::schema::*;
use std::fmt::Write;
use vpbt::wire::Sc;

pub struct Emit<'a> {
    pub s: &'a Schema,
    /// path of the module with the generated code
    pub root: String,
}

impl<'a> Emit<'a> {
    pub fn path(&self, ns: usize, name: &str) -> String {
        let mut p = self.root.clone();
        for k in self.s.ns_key(ns) {
            p.push_str("::");
            p.push_str(&k);
        }
        p.push_str("::");
        p.push_str(name);
        p
    }
    fn table(&self, t: usize) -> String {
        self.path(self.s.tables[t].ns, &fix(&self.s.tables[t].name))
    }
    fn args(&self, t: usize) -> String {
        self.path(self.s.tables[t].ns, &format!("{}Args", fix(&self.s.tables[t].name)))
    }
    fn builder(&self, t: usize) -> String {
        self.path(self.s.tables[t].ns, &format!("{}Builder", fix(&self.s.tables[t].name)))
    }
    fn enm(&self, e: usize) -> String {
        self.path(self.s.enums[e].ns, &fix(&self.s.enums[e].name))
    }
    fn uni(&self, u: usize) -> String {
        self.path(self.s.unions[u].ns, &fix(&self.s.unions[u].name))
    }
    fn companion(&self, u: usize) -> String {
        let u = &self.s.unions[u];
        self.path(u.ns, &format!("butte_gen::{}", fix(&format!("{}Type", u.name))))
    }

    /// What an accessor gives for the type.
    fn read_ty(&self, t: &Ty, lt: &str) -> String {
        match t {
            Ty::Sc(sc, _) => rust_sc(*sc).into(),
            Ty::Str => format!("&{} str", lt),
            Ty::Enum(e) => self.enm(*e),
            Ty::Table(t) => format!("{}<&{} [u8]>", self.table(*t), lt),
            Ty::Union(u) => format!("{}<{}>", self.uni(*u), lt),
            Ty::Vec(e) => format!("butte::Vector<{}, {}>", lt, self.elem_ty(e, lt)),
        }
    }
    fn elem_ty(&self, t: &Ty, lt: &str) -> String {
        match t {
            Ty::Sc(..) | Ty::Enum(_) => self.read_ty(t, lt),
            _ => format!("butte::ForwardsUOffset<{}>", self.read_ty(t, lt)),
        }
    }

    fn to_bits(&self, t: &Ty, v: &str) -> String {
        match t {
            Ty::Sc(Sc::Bool, _) => format!("({} as bool) as u64", v),
            Ty::Sc(Sc::F32, _) => format!("f32::to_bits({}) as u64", v),
            Ty::Sc(Sc::F64, _) => format!("f64::to_bits({})", v),
            Ty::Sc(sc, _) => {
                let n = rust_sc(*sc);
                format!("{{ let x: {} = {}; x as u{} as u64 }}", n, v, sc.size() * 8)
            }
            Ty::Enum(e) => {
                let b = self.s.enums[*e].base;
                format!("<{}>::from({}) as u{} as u64", rust_sc(b), v, b.size() * 8)
            }
            _ => unreachable!(),
        }
    }
    fn from_bits(&self, t: &Ty, v: &str) -> String {
        match t {
            Ty::Sc(Sc::Bool, _) => format!("{} != 0", v),
            Ty::Sc(Sc::F32, _) => format!("f32::from_bits({} as u32)", v),
            Ty::Sc(Sc::F64, _) => format!("f64::from_bits({})", v),
            Ty::Sc(sc, _) => format!("{} as {}", v, rust_sc(*sc)),
            Ty::Enum(e) => format!("en{}({})", e, v),
            _ => unreachable!(),
        }
    }

    /// Make the object for a value; `b` is the builder.
    fn make(&self, t: &Ty, v: &str, d: usize) -> String {
        match t {
            Ty::Str => format!("b.create_string({}.str())", v),
            Ty::Table(t) => format!("mk{}(b, {})", t, v),
            Ty::Vec(e) => {
                let x = format!("v{}", d);
                let item = match &**e {
                    Ty::Sc(..) | Ty::Enum(_) => self.from_bits(e, &format!("{}.bits()", x)),
                    e => self.make(e, &x, d + 1),
                };
                format!(
                    "{{ let mut l{d} = Vec::new(); for {x} in {v}.list() {{ let i = {item}; l{d}.push(i); }} {vec} }}",
                    d = d,
                    x = x,
                    v = v,
                    item = item,
                    vec = match &**e {
                        Ty::Sc(..) | Ty::Enum(_) => format!("b.create_vector::<{}>(&l{})", self.read_ty(e, ""), d),
                        _ => format!("b.create_vector(&l{})", d),
                    }
                )
            }
            _ => unreachable!(),
        }
    }

    /// Look at what an accessor gave.
    fn look(&self, t: &Ty, v: &str, d: usize) -> String {
        match t {
            Ty::Sc(..) | Ty::Enum(_) => format!("Got::Sc({})", self.to_bits(t, v)),
            Ty::Str => format!("str_got({})", v),
            Ty::Table(t) => format!("rd{}(&{}, l, d + {})", t, v, d),
            Ty::Vec(e) => format!(
                "vector::<{}>({}, l, d + {}, |x{}| {})",
                self.elem_ty(e, "'_"),
                v,
                d,
                d,
                self.look(e, &format!("x{}", d), d + 1)
            ),
            Ty::Union(u) => format!("un{}({}, l, d + {})", u, v, d),
        }
    }

    pub fn code(&self) -> String {
        let s = self.s;
        let mut o = String::new();
        let w = &mut o;
        writeln!(w, "#![allow(bindings_with_variant_name)] use model::glue::*; use model::val::*;").unwrap();
        for (i, e) in s.enums.iter().enumerate() {
            let p = self.enm(i);
            let names: Vec<String> = e.vars.iter().map(|v| fix(&v.name)).collect();
            self.enum_code(w, &format!("en{}", i), &p, e.base, &names, &e.bits(), &self.enum_fn(e.ns, &e.name, ""));
        }
        for (i, u) in s.unions.iter().enumerate() {
            let p = self.companion(i);
            let names: Vec<String> = std::iter::once("None".to_string())
                .chain(u.vars.iter().map(|t| fix(&s.tables[*t].name)))
                .collect();
            let nums: Vec<u64> = std::iter::once(0).chain(u.numbers().iter().map(|x| *x as u64)).collect();
            let f = self.enum_fn(u.ns, &format!("{}Type", u.name), "butte_gen::");
            self.enum_code(w, &format!("ut{}", i), &p, Sc::U8, &names, &nums, &f);
            // the union itself
            writeln!(w, "pub fn un{}(x: {}<'_>, l: &Lim, d: usize) -> Got {{ let n = x.get_type(); let n: u8 = <u8>::from(n); match x {{", i, self.uni(i)).unwrap();
            for (k, t) in u.vars.iter().enumerate() {
                let v = fix(&s.tables[*t].name);
                writeln!(w, "{}::{}(y) => Got::Uni({}, n as u64, Box::new(rd{}::<&[u8]>(&y, l, d))),", self.uni(i), v, k, t).unwrap();
            }
            writeln!(w, "}} }}").unwrap();
        }
        for t in 0..s.tables.len() {
            self.mk(w, t);
            self.rd(w, t);
        }
        write!(w, "pub static GLUE: SchemaGlue = SchemaGlue {{ tables: &[").unwrap();
        for t in 0..s.tables.len() {
            let p = self.table(t);
            let mut vts = vec![];
            for f in &s.tables[t].fields {
                if let Ty::Union(_) = f.ty {
                    vts.push(format!("{}::{}", p, vt_name(&type_field(&f.name))));
                }
                vts.push(format!("{}::{}", p, vt_name(&f.name)));
            }
            // each table gets another kind of owned buffer
            let owned = ["Vec<u8>", "std::rc::Rc<[u8]>", "Box<[u8]>", "std::sync::Arc<[u8]>"][t % 4];
            let ways = |buf: &str, b: &str, same: &str| {
                format!(
                    "match w >> 1 {{ \
                     0 => req({p}::get_root({b}), |x| rd{t}(&x, l, 0)), \
                     1 => req(butte::get_root::<{p}<{buf}>, _>({b}), |x| rd{t}(&x, l, 0)), \
                     2 => req(butte::Table::<{buf}>::get_root({b}), |x| rd{t}(&<{p}<{buf}> as From<butte::Table<{buf}>>>::from(x), l, 0)), \
                     3 => req({p}::get_root({b}), |x| rd{t}(&<{p}<{buf}> as From<butte::Table<{buf}>>>::from(<butte::Table<{buf}> as From<{p}<{buf}>>>::from({same})), l, 0)), \
                     4 | 5 => req(butte::get_size_prefixed_root::<{p}<{buf}>, _>({b}), |x| rd{t}(&x, l, 0)), \
                     _ => req(butte::Table::<{buf}>::get_size_prefixed_root({b}), |x| rd{t}(&<{p}<{buf}> as From<butte::Table<{buf}>>>::from(x), l, 0)) }}",
                    p = p,
                    t = t,
                    b = b,
                    buf = buf,
                    same = same
                )
            };
            write!(
                w,
                "TableGlue {{ build: |b, v, f| {{ let o = mk{t}(b, v); match f {{ \
                 Finish::Minimal => b.finish_minimal(o), Finish::Ident(i) => b.finish(o, Some(i)), Finish::Sized(i) => b.finish_size_prefixed(o, i) }} }}, \
                 read: |b, l, w| if w & 1 == 1 {{ let b: {owned} = b.into(); {o} }} else {{ {r} }}, \
                 bare: |b| {{ let o = {builder}::new(b).finish(); b.finish_minimal(o) }}, \
                 vts: &[{v}] }}, ",
                t = t,
                owned = owned,
                builder = self.builder(t),
                o = ways(owned, "b", "x"),
                r = ways("&[u8]", "b", "plain(x)"),
                v = vts.join(", ")
            )
            .unwrap();
        }
        write!(w, "], enums: &[").unwrap();
        for i in 0..s.enums.len() {
            write!(w, "en{}_glue::G, ", i).unwrap();
        }
        write!(w, "], unions: &[").unwrap();
        for i in 0..s.unions.len() {
            write!(w, "ut{}_glue::G, ", i).unwrap();
        }
        writeln!(w, "] }};").unwrap();
        o
    }

    fn enum_fn(&self, ns: usize, name: &str, inner: &str) -> String {
        use heck::SnakeCase;
        self.path(ns, &format!("{}enum_name_{}", inner, fix(name).to_snake_case()))
    }

    #[allow(clippy::too_many_arguments)]
    fn enum_code(&self, w: &mut String, f: &str, p: &str, base: Sc, names: &[String], bits: &[u64], name_fn: &str) {
        let r = rust_sc(base);
        let u = format!("u{}", base.size() * 8);
        // by number
        write!(w, "pub fn {}(b: u64) -> {} {{ match b {{ ", f, p).unwrap();
        for (n, b) in names.iter().zip(bits) {
            write!(w, "{}u64 => <{}>::{}, ", b, p, n).unwrap();
        }
        writeln!(w, "_ => panic!(\"no variant\") }} }}").unwrap();
        write!(w, "pub mod {}_glue {{ use model::glue::*; use model::val::*; use std::convert::TryFrom; ", f).unwrap();
        write!(w, "fn var(i: usize) -> {} {{ match i {{ ", p).unwrap();
        for (i, n) in names.iter().enumerate() {
            write!(w, "{} => <{}>::{}, ", i, p, n).unwrap();
        }
        write!(w, "_ => panic!(\"no variant\") }} }} ").unwrap();
        write!(w, "fn idx(e: {}) -> usize {{ match e {{ ", p).unwrap();
        for (i, n) in names.iter().enumerate() {
            write!(w, "<{}>::{} => {}, ", p, n, i).unwrap();
        }
        write!(w, "}} }} ").unwrap();
        writeln!(
            w,
            "pub const G: EnumGlue = EnumGlue {{ number: |i| <{r}>::from(var(i)) as {u} as u64, \
             from: |b| <{p} as TryFrom<{r}>>::try_from(b as {r}).map(idx).map_err(err), \
             name: |i| {nf}(var(i)), default: || idx(<{p} as Default>::default()), size: std::mem::size_of::<{p}>(), \
             push: |i, b| butte::Push::push(&var(i), b, &[]), \
             follow: |b, l| <{p} as butte::Follow>::follow(b, l).map(idx).map_err(err) }}; }}",
            r = r,
            u = u,
            p = p,
            nf = name_fn
        )
        .unwrap();
    }

    fn mk(&self, w: &mut String, t: usize) {
        let s = self.s;
        let p = self.table(t);
        writeln!(
            w,
            "pub fn mk{}<'a>(b: &mut butte::FlatBufferBuilder<'a>, v: &Val) -> butte::WIPOffset<{}<&'a [u8]>> {{ let v = v.tab();",
            t, p
        )
        .unwrap();
        let fs = &s.tables[t].fields;
        for (i, f) in fs.iter().enumerate() {
            match &f.ty {
                Ty::Sc(..) | Ty::Enum(_) => {}
                Ty::Union(u) => {
                    write!(w, "let c{i} = match v[{i}].uni().1 {{ None => None, Some((k, x)) => Some(match k {{ ", i = i).unwrap();
                    for (k, vt) in s.unions[*u].vars.iter().enumerate() {
                        write!(w, "{} => mk{}(b, x).as_union_value(), ", k, vt).unwrap();
                    }
                    writeln!(w, "_ => unreachable!() }}) }};").unwrap();
                }
                ty => {
                    writeln!(
                        w,
                        "let c{i} = match &v[{i}] {{ Val::Absent => None, x => Some({make}) }};",
                        i = i,
                        make = self.make(ty, "x", 0)
                    )
                    .unwrap();
                }
            }
        }
        let a = self.args(t);
        if s.has_default(t) {
            writeln!(w, "let mut a = <{} as Default>::default();", a).unwrap();
            for (i, f) in fs.iter().enumerate() {
                let n = fix(&f.name);
                match &f.ty {
                    Ty::Union(u) => {
                        writeln!(
                            w,
                            "if let Some(k) = v[{i}].uni().0 {{ a.{n} = ut{u}({nums}[k]); }} a.{f} = c{i};",
                            i = i,
                            n = type_field(&f.name),
                            u = u,
                            nums = self.nums(*u),
                            f = n
                        )
                        .unwrap();
                    }
                    ty if Schema::is_scalar(ty) => writeln!(
                        w,
                        "if !v[{i}].absent() {{ a.{n} = {x}; }}",
                        i = i,
                        n = n,
                        x = self.from_bits(ty, &format!("v[{}].bits()", i))
                    )
                    .unwrap(),
                    _ => writeln!(w, "a.{} = c{};", n, i).unwrap(),
                }
            }
        } else {
            writeln!(w, "let a = {} {{", a).unwrap();
            for (i, f) in fs.iter().enumerate() {
                let n = fix(&f.name);
                let un = if f.required { ".unwrap()" } else { "" };
                match &f.ty {
                    Ty::Union(u) => writeln!(
                        w,
                        "{}: ut{}({}[v[{}].uni().0.unwrap_or(0)]), {}: c{}{},",
                        type_field(&f.name),
                        u,
                        self.nums(*u),
                        i,
                        n,
                        i,
                        un
                    )
                    .unwrap(),
                    ty if Schema::is_scalar(ty) => {
                        writeln!(w, "{}: {},", n, self.from_bits(ty, &format!("v[{}].bits()", i))).unwrap()
                    }
                    _ => writeln!(w, "{}: c{}{},", n, i, un).unwrap(),
                }
            }
            writeln!(w, "}};").unwrap();
        }
        writeln!(w, "<{}<&'a [u8]>>::create(b, &a) }}", p).unwrap();
    }

    fn nums(&self, u: usize) -> String {
        let v: Vec<String> = std::iter::once("0u64".to_string())
            .chain(self.s.unions[u].numbers().iter().map(|x| format!("{}", x)))
            .collect();
        format!("[{}]", v.join(", "))
    }

    fn rd(&self, w: &mut String, t: usize) {
        let s = self.s;
        writeln!(
            w,
            "pub fn rd{}<B: AsRef<[u8]>>(x: &{}<B>, l: &Lim, d: usize) -> Got {{ if l.stop(d) {{ return Got::Cut; }} let mut o: Vec<Got> = Vec::new();",
            t,
            self.table(t)
        )
        .unwrap();
        for f in &s.tables[t].fields {
            let how = if f.required { "req" } else { "opt" };
            if let Ty::Union(u) = f.ty {
                writeln!(
                    w,
                    "o.push({}(x.{}(), |y: {}| Got::Sc(<u8>::from(y) as u64)));",
                    how,
                    snake(&type_field(&f.name)),
                    self.companion(u)
                )
                .unwrap();
            }
            writeln!(
                w,
                "o.push({}(x.{}(), |y: {}| {}));",
                how,
                snake(&f.name),
                self.read_ty(&f.ty, "'_"),
                self.look(&f.ty, "y", 1)
            )
            .unwrap();
        }
        writeln!(w, "Got::Tab(o) }}").unwrap();
    }
}
