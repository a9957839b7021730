//! Values of a schema's tables: generation, wire form, what reading gives.

use crate::schema::*;
use std::cell::Cell;
use vpbt::wire::*;
use vpbt::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// not set
    Absent,
    Sc(u64),
    Str(String),
    List(Vec<Val>),
    /// one value per field of the schema's table
    Tab(Vec<Val>),
    /// type as an index into the variants plus one (0: none, as set by the
    /// caller; absent: left to the default), and the value with the variant it really is
    Uni(Option<usize>, Option<(usize, Box<Val>)>),
}

impl Val {
    pub fn absent(&self) -> bool {
        matches!(self, Val::Absent)
    }
    pub fn bits(&self) -> u64 {
        match self {
            Val::Sc(b) => *b,
            v => panic!("{:?}", v),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            Val::Str(b) => b,
            v => panic!("{:?}", v),
        }
    }
    pub fn list(&self) -> &[Val] {
        match self {
            Val::List(b) => b,
            v => panic!("{:?}", v),
        }
    }
    pub fn tab(&self) -> &[Val] {
        match self {
            Val::Tab(b) => b,
            v => panic!("{:?}", v),
        }
    }
    pub fn uni(&self) -> (Option<usize>, Option<(usize, &Val)>) {
        match self {
            Val::Uni(t, v) => (*t, v.as_ref().map(|(k, v)| (*k, &**v))),
            Val::Absent => (None, None),
            v => panic!("{:?}", v),
        }
    }
}

#[derive(Clone, Copy)]
pub struct VCfg {
    /// out of 8: how often an optional field is left out
    pub absent: u64,
    /// out of 8: how often a scalar gets its default
    pub dflt: u64,
    pub depth: usize,
    pub max_list: usize,
    /// so many strings or vectors may be long
    pub long: usize,
}

impl Default for VCfg {
    fn default() -> Self {
        VCfg {
            absent: 2,
            dflt: 1,
            depth: 4,
            max_list: 12,
            long: 0,
        }
    }
}

pub struct Gen<'a> {
    pub s: &'a Schema,
    pub cfg: VCfg,
    pub fuel: Cell<i64>,
    long: Cell<usize>,
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a Schema, cfg: VCfg) -> Self {
        Gen {
            s,
            cfg,
            fuel: Cell::new(400),
            long: Cell::new(cfg.long),
        }
    }
    pub fn table(&self, t: usize, src: &mut Src, depth: usize) -> Val {
        self.fuel.set(self.fuel.get() - 1);
        let dfl = self.s.has_default(t);
        let mut out = vec![];
        for f in &self.s.tables[t].fields {
            let stop = depth >= self.cfg.depth || self.fuel.get() <= 0;
            let v = match &f.ty {
                Ty::Sc(..) | Ty::Enum(_) => {
                    if dfl && src.chance(self.cfg.absent, 8) {
                        Val::Absent
                    } else {
                        self.scalar(&f.ty, Some(f), src)
                    }
                }
                _ if !f.required && (src.chance(self.cfg.absent, 8) || (stop && deep(&f.ty))) => match &f.ty {
                    // still anything about the type
                    Ty::Union(u) => {
                        let n = self.s.unions[*u].vars.len();
                        match src.weighted(&[3, 2, 2]) {
                            0 if dfl => Val::Absent,
                            0 | 1 => Val::Uni(Some(0), None),
                            _ => Val::Uni(Some(src.range(0, n)), None),
                        }
                    }
                    _ => Val::Absent,
                },
                Ty::Union(u) => {
                    let un = &self.s.unions[*u];
                    let k = if f.required && stop {
                        (0..un.vars.len()).find(|k| un.vars[*k] < t).unwrap()
                    } else {
                        src.below(un.vars.len())
                    };
                    let v = self.table(un.vars[k], src, depth + 1);
                    let ty = if !f.required && src.chance(1, 12) { 0 } else { k + 1 };
                    Val::Uni(Some(ty), Some((k, Box::new(v))))
                }
                ty => self.value(ty, src, depth, stop),
            };
            out.push(v);
        }
        Val::Tab(out)
    }
    fn scalar(&self, ty: &Ty, f: Option<&FieldDef>, src: &mut Src) -> Val {
        if let Some(f) = f {
            if src.chance(self.cfg.dflt, 8) {
                return Val::Sc(self.s.args_default(f));
            }
        }
        Val::Sc(match ty {
            Ty::Sc(sc, _) => sc.gen(src),
            Ty::Enum(e) => *src.pick(&self.s.enums[*e].bits()),
            _ => unreachable!(),
        })
    }
    /// A string or vector that is long.
    fn long(&self, ty: &Ty, src: &mut Src, depth: usize) -> Option<Val> {
        if self.long.get() == 0 || !matches!(ty, Ty::Str | Ty::Vec(_)) || src.flag() {
            return None;
        }
        self.long.set(self.long.get() - 1);
        let n = match src.below(4) {
            0 => src.range(100, 300),
            1 => src.range(1000, 9000),
            2 => (1 << 16) - 4 + src.below(9),
            _ => src.range(1 << 15, 100_000),
        };
        let mut rest = Src::random(src.draw(0));
        Some(match ty {
            Ty::Str => {
                let mut s = String::with_capacity(n + 4);
                let plain = src.flag();
                while s.len() < n {
                    s.push(match rest.below(if plain { 26 } else { 28 }) {
                        26 => 'é',
                        27 => '\u{1f600}',
                        k => (b'a' + k as u8) as char,
                    });
                }
                Val::Str(s)
            }
            Ty::Vec(e) => {
                let n = match &**e {
                    Ty::Sc(..) | Ty::Enum(_) => n,
                    e if deep(e) => n % 300,
                    _ => n % 3000,
                };
                self.fuel.set(self.fuel.get().max(2 * n as i64));
                let v = (0..n)
                    .map(|_| {
                        let stop = self.fuel.get() <= 0;
                        self.value(e, &mut rest, depth + 2, stop)
                    })
                    .collect();
                self.fuel.set(20);
                Val::List(v)
            }
            _ => unreachable!(),
        })
    }
    fn value(&self, ty: &Ty, src: &mut Src, depth: usize, stop: bool) -> Val {
        if !stop {
            if let Some(v) = self.long(ty, src, depth) {
                return v;
            }
        }
        match ty {
            Ty::Sc(..) | Ty::Enum(_) => self.scalar(ty, None, src),
            Ty::Str => Val::Str(gen_string(src, 40)),
            Ty::Table(t) => self.table(*t, src, depth + 1),
            Ty::Vec(e) => {
                let n = if stop && deep(e) {
                    0
                } else if deep(e) {
                    src.below(4)
                } else {
                    src.len(self.cfg.max_list)
                };
                self.fuel.set(self.fuel.get() - n as i64 / 4);
                Val::List(
                    (0..n)
                        .map(|_| {
                            let stop = stop || self.fuel.get() <= 0;
                            self.value(e, src, depth + 1, stop)
                        })
                        .collect(),
                )
            }
            Ty::Union(_) => unreachable!(),
        }
    }
}

fn deep(t: &Ty) -> bool {
    match t {
        Ty::Table(_) | Ty::Union(_) => true,
        Ty::Vec(t) => deep(t),
        _ => false,
    }
}

// --------------------------------------------------------------- wire form

pub struct ToDoc<'a> {
    pub s: &'a Schema,
    pub objs: Vec<Obj>,
    /// how the document is to be written by someone else: scalars that equal
    /// their default may be stored nevertheless
    pub force: Option<(&'a mut Src, Wild)>,
}

/// What someone else may write, out of 16.
#[derive(Clone, Copy, Default)]
pub struct Wild {
    /// leave out a field
    pub drop: u64,
    /// use another number for an enum
    pub enums: u64,
    /// use another number for a union's type
    pub types: u64,
}

impl<'a> ToDoc<'a> {
    pub fn doc(s: &'a Schema, t: usize, v: &Val, force: Option<(&'a mut Src, Wild)>) -> Doc {
        let mut c = ToDoc { s, objs: vec![], force };
        let root = c.table(t, v);
        Doc { objs: c.objs, root }
    }
    fn push(&mut self, o: Obj) -> Id {
        self.objs.push(o);
        self.objs.len() - 1
    }
    /// What the generated `create` stores.
    fn table(&mut self, t: usize, v: &Val) -> Id {
        let slots = self.s.slots(t);
        let mut fields = vec![];
        for (i, f) in self.s.tables[t].fields.iter().enumerate() {
            let x = &v.tab()[i];
            let slot = slots[i];
            if let Some((src, w)) = &mut self.force {
                if src.chance(w.drop, 16) {
                    // a union's value may stay without its type, and the other way round
                    if !matches!(f.ty, Ty::Union(_)) || src.flag() {
                        continue;
                    }
                    let before = fields.len();
                    self.field(f, x, slot, &mut fields);
                    let keep = src_flag(&mut self.force) as u16;
                    let mut k = before;
                    while k < fields.len() {
                        if fields[k].slot == slot - keep {
                            fields.remove(k);
                        } else {
                            k += 1;
                        }
                    }
                    continue;
                }
            }
            self.field(f, x, slot, &mut fields);
        }
        self.push(Obj::Tab(fields))
    }
    fn bits(&mut self, ty: &Ty, bits: u64) -> u64 {
        if let (Ty::Enum(e), Some((src, w))) = (ty, &mut self.force) {
            if src.chance(w.enums, 16) {
                return other(self.s.enums[*e].base, &self.s.enums[*e].bits(), src);
            }
        }
        bits
    }
    fn field(&mut self, f: &FieldDef, x: &Val, slot: u16, fields: &mut Vec<Field>) {
            match &f.ty {
                Ty::Sc(..) | Ty::Enum(_) => {
                    let sc = self.s.wire_sc(&f.ty).unwrap();
                    let bits = if x.absent() { self.s.args_default(f) } else { x.bits() };
                    let bits = self.bits(&f.ty, bits);
                    let mut default = if f.required { None } else { self.s.read_default(f) };
                    if let Some((src, _)) = &mut self.force {
                        if src.chance(1, 4) {
                            default = None;
                        } else if let Some(d) = self.s.read_default(f) {
                            // required or not, the reader falls back on it
                            default = Some(d);
                        }
                    }
                    fields.push(Field {
                        slot,
                        val: FieldVal::Sc { sc, bits, default },
                    });
                }
                Ty::Union(u) => {
                    let (ty, val) = x.uni();
                    let mut n = match ty {
                        None | Some(0) => 0,
                        Some(k) => self.s.unions[*u].numbers()[k - 1],
                    };
                    if let Some((src, w)) = &mut self.force {
                        if src.chance(w.types, 16) {
                            let nums: Vec<u64> = self.s.unions[*u].numbers().iter().map(|x| *x as u64).collect();
                            n = other(Sc::U8, &nums, src) as u8;
                        }
                    }
                    // someone else may leave out a type of none
                    let mut default = None;
                    if let Some((src, _)) = &mut self.force {
                        if !f.required && src.flag() {
                            default = Some(0);
                        }
                    }
                    fields.push(Field {
                        slot: slot - 1,
                        val: FieldVal::Sc {
                            sc: Sc::U8,
                            bits: n as u64,
                            default,
                        },
                    });
                    if let Some((k, v)) = val {
                        let id = self.table(self.s.unions[*u].vars[k], v);
                        fields.push(Field {
                            slot,
                            val: FieldVal::Ref(id),
                        });
                    }
                }
                ty => {
                    if !x.absent() {
                        let id = self.object(ty, x);
                        fields.push(Field {
                            slot,
                            val: FieldVal::Ref(id),
                        });
                    }
                }
            }
    }
    fn object(&mut self, ty: &Ty, v: &Val) -> Id {
        match ty {
            Ty::Str => self.push(Obj::Str(v.str().to_string())),
            Ty::Table(t) => self.table(*t, v),
            Ty::Vec(e) => match self.s.wire_sc(e) {
                Some(sc) => {
                    let l = v.list().iter().map(|x| self.bits(e, x.bits())).collect();
                    self.push(Obj::Vec(sc, l))
                },
                None => {
                    let ids = v.list().iter().map(|x| self.object(e, x)).collect();
                    self.push(Obj::Refs(ids))
                }
            },
            _ => unreachable!(),
        }
    }
}

fn src_flag(f: &mut Option<(&mut Src, Wild)>) -> bool {
    f.as_mut().map_or(false, |(s, _)| s.flag())
}

/// A number of the type: near one of these, at random, or one of these.
fn other(sc: Sc, near: &[u64], src: &mut Src) -> u64 {
    sc.norm(match src.below(4) {
        0 => *src.pick(near),
        1 => src.pick(near).wrapping_add(1),
        2 => src.pick(near).wrapping_sub(1),
        _ => src.bits(),
    })
}

// ----------------------------------------------------- what reading gives

/// What generated accessors return. A table has one entry per slot.
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Absent,
    Sc(u64),
    Str(String),
    /// declared length and the elements looked at
    Vec(usize, Vec<Got>),
    Tab(Vec<Got>),
    /// variant (index), the number its type has
    Uni(usize, u64, Box<Got>),
    /// kinds of error that are right, and the field a missing one names
    Err(u16, Option<String>),
    /// not looked at
    Cut,
}

pub fn agree(want: &Got, got: &Got) -> bool {
    match (want, got) {
        (Got::Err(w, a), Got::Err(g, b)) => w & g != 0 && (g & E_REQUIRED == 0 || a == b),
        (Got::Vec(n, a), Got::Vec(m, b)) => n == m && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| agree(x, y)),
        (Got::Tab(a), Got::Tab(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| agree(x, y)),
        (Got::Uni(k, n, a), Got::Uni(l, m, b)) => k == l && n == m && agree(a, b),
        (a, b) => a == b,
    }
}

/// Where two results differ first.
pub fn difference(s: &Schema, t: usize, want: &Got, got: &Got) -> String {
    match (want, got) {
        (Got::Tab(a), Got::Tab(b)) if a.len() == b.len() => {
            let slots = s.slots(t);
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if !agree(x, y) {
                    let k = slots.iter().position(|q| *q as usize >= i).unwrap_or(0);
                    let f = s.tables[t].fields.get(k);
                    let name = f.map(|f| f.name.clone()).unwrap_or_default();
                    let inner = match f.map(|f| &f.ty) {
                        Some(Ty::Table(u)) => difference(s, *u, x, y),
                        Some(Ty::Union(u)) => match (x, y) {
                            (Got::Uni(k, n, a), Got::Uni(l, m, b)) if k == l && n == m => {
                                difference(s, s.unions[*u].vars[*k], a, b)
                            }
                            _ => format!("expected {}, got {}", short(x), short(y)),
                        },
                        _ => format!("expected {}, got {}", short(x), short(y)),
                    };
                    return format!("{}.{} (slot {}): {}", s.tables[t].name, name, i, inner);
                }
            }
            "no difference".into()
        }
        _ => format!("expected {}, got {}", short(want), short(got)),
    }
}

fn short(g: &Got) -> String {
    let mut s = format!("{:?}", g);
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

pub fn required(name: &str) -> Got {
    Got::Err(E_REQUIRED, Some(name.to_string()))
}

/// Reading back what `create` was given.
pub fn expect(s: &Schema, t: usize, v: &Val) -> Got {
    let mut out = vec![];
    for (i, f) in s.tables[t].fields.iter().enumerate() {
        let x = &v.tab()[i];
        match &f.ty {
            Ty::Sc(..) | Ty::Enum(_) => {
                let sc = s.wire_sc(&f.ty).unwrap();
                let bits = if x.absent() { s.args_default(f) } else { x.bits() };
                let d = s.read_default(f);
                // -0.0 equals 0.0: a value equal to its default reads as the default
                out.push(Got::Sc(match d {
                    Some(d) if !f.required && sc.same(bits, d) => d,
                    _ => bits,
                }));
            }
            Ty::Union(u) => {
                let (ty, val) = x.uni();
                let k = ty.unwrap_or(0);
                let un = &s.unions[*u];
                let name = snake(&f.name);
                out.push(Got::Sc(if k == 0 { 0 } else { un.numbers()[k - 1] as u64 }));
                out.push(match (k, val) {
                    (0, _) | (_, None) => {
                        if f.required {
                            required(&name)
                        } else {
                            Got::Absent
                        }
                    }
                    (k, Some((l, v))) => {
                        assert_eq!(k, l + 1);
                        Got::Uni(l, un.numbers()[l] as u64, Box::new(expect(s, un.vars[l], v)))
                    }
                });
            }
            ty => out.push(if x.absent() {
                if f.required {
                    required(&snake(&f.name))
                } else {
                    Got::Absent
                }
            } else {
                expect_obj(s, ty, x)
            }),
        }
    }
    Got::Tab(out)
}

fn expect_obj(s: &Schema, ty: &Ty, v: &Val) -> Got {
    match ty {
        Ty::Sc(..) | Ty::Enum(_) => Got::Sc(v.bits()),
        Ty::Str => Got::Str(v.str().to_string()),
        Ty::Table(t) => expect(s, *t, v),
        Ty::Vec(e) => Got::Vec(v.list().len(), v.list().iter().map(|x| expect_obj(s, e, x)).collect()),
        Ty::Union(_) => unreachable!(),
    }
}

/// How much to look at. Both readers spend it in the same order.
pub struct Lim {
    pub fuel: Cell<i64>,
    pub few: bool,
    pub how: u8,
}

impl Lim {
    pub fn all(how: u8) -> Lim {
        Lim {
            // no value comes near this, but what is read by mistake may
            fuel: Cell::new(4_000_000),
            few: false,
            how,
        }
    }
    pub fn few(how: u8) -> Lim {
        Lim {
            fuel: Cell::new(600),
            few: true,
            how,
        }
    }
    pub fn spend(&self) -> bool {
        self.fuel.set(self.fuel.get() - 1);
        self.fuel.get() > 0
    }
    /// Spend one; is it time to stop?
    pub fn stop(&self, depth: usize) -> bool {
        depth > if self.few { MAX_DEPTH } else { 400 } || !self.spend()
    }
    /// How many of n elements to look at.
    pub fn cap(&self, n: usize, depth: usize) -> usize {
        if self.few {
            return n.min(elem_cap(depth, true));
        }
        let k = n.min(self.fuel.get().max(0) as usize);
        self.fuel.set(self.fuel.get() - k as i64);
        k
    }
}

pub const MAX_DEPTH: usize = 9;

/// Reading any bytes as this table, by the format and the schema.
pub struct SRead<'a> {
    pub s: &'a Schema,
    pub r: RefReader<'a>,
    pub lim: &'a Lim,
}

impl<'a> SRead<'a> {
    pub fn root(&self, t: usize) -> Got {
        match self.r.uoffset(0) {
            Ok(p) => self.table(t, p, 0),
            Err(e) => Got::Err(e, None),
        }
    }
    pub fn table(&self, t: usize, pos: usize, depth: usize) -> Got {
        if self.lim.stop(depth) {
            return Got::Cut;
        }
        let slots = self.s.slots(t);
        let mut out = vec![];
        for (i, f) in self.s.tables[t].fields.iter().enumerate() {
            let name = snake(&f.name);
            match &f.ty {
                Ty::Union(u) => {
                    let un = &self.s.unions[*u];
                    let numbers: Vec<u64> = std::iter::once(0).chain(un.numbers().iter().map(|x| *x as u64)).collect();
                    let tn = snake(&type_field(&f.name));
                    let ty = match self.r.field(pos, slots[i] - 1) {
                        Err(e) => Got::Err(e, None),
                        Ok(None) if f.required => required(&tn),
                        Ok(None) => Got::Absent,
                        Ok(Some(p)) => match self.r.rd(p, 1) {
                            Err(e) => Got::Err(e, None),
                            Ok(n) if numbers.contains(&n) => Got::Sc(n),
                            Ok(_) => Got::Err(E_ENUM, None),
                        },
                    };
                    let val = match &ty {
                        Got::Absent => Got::Absent,
                        Got::Sc(0) if f.required => required(&name),
                        Got::Sc(0) => Got::Absent,
                        Got::Sc(n) => {
                            let k = numbers.iter().position(|x| x == n).unwrap() - 1;
                            match self.r.field(pos, slots[i]) {
                                Err(e) => Got::Err(e, None),
                                Ok(None) if f.required => required(&name),
                                Ok(None) => Got::Absent,
                                Ok(Some(p)) => match self.r.uoffset(p) {
                                    Err(e) => Got::Err(e, None),
                                    Ok(q) => Got::Uni(k, *n, Box::new(self.table(un.vars[k], q, depth + 1))),
                                },
                            }
                        }
                        e => e.clone(),
                    };
                    out.push(ty);
                    out.push(val);
                }
                ty => out.push(match self.r.field(pos, slots[i]) {
                    Err(e) => Got::Err(e, None),
                    Ok(None) => match self.s.read_default(f) {
                        Some(d) => Got::Sc(d),
                        None if f.required => required(&name),
                        None => Got::Absent,
                    },
                    Ok(Some(p)) => match self.s.wire_sc(ty) {
                        Some(_) => self.scalar(ty, p),
                        None => match self.r.uoffset(p) {
                            Err(e) => Got::Err(e, None),
                            Ok(q) => self.object(ty, q, depth + 1),
                        },
                    },
                }),
            }
        }
        Got::Tab(out)
    }
    fn scalar(&self, ty: &Ty, p: usize) -> Got {
        let sc = self.s.wire_sc(ty).unwrap();
        match self.r.scalar(p, sc) {
            Err(e) => Got::Err(e, None),
            Ok(b) => match ty {
                Ty::Enum(e) if !self.s.enums[*e].bits().contains(&b) => Got::Err(E_ENUM, None),
                _ => Got::Sc(b),
            },
        }
    }
    fn object(&self, ty: &Ty, p: usize, depth: usize) -> Got {
        match ty {
            Ty::Str => match self.r.string(p) {
                Out::Str(s) => Got::Str(s),
                Out::Err(e) => Got::Err(e, None),
                _ => unreachable!(),
            },
            Ty::Table(t) => self.table(*t, p, depth),
            Ty::Vec(e) => match self.r.rd(p, 4) {
                Err(e) => Got::Err(e, None),
                Ok(n) => {
                    let n = n as usize;
                    let mut v = vec![];
                    for i in 0..self.lim.cap(n, depth) {
                        v.push(match self.s.wire_sc(e) {
                            Some(sc) => self.scalar(e, p + 4 + i * sc.size()),
                            None => match self.r.uoffset(p + 4 + 4 * i) {
                                Err(e) => Got::Err(e, None),
                                Ok(q) => self.object(e, q, depth + 1),
                            },
                        });
                    }
                    Got::Vec(n, v)
                }
            },
            _ => unreachable!(),
        }
    }
}
