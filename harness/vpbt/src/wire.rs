//! An independent model of the FlatBuffers wire format: documents, a
//! reference encoder with random layouts, a strict decoder, a lenient reader.
//! Written from the format's specification; shares no code with butte.

use crate::Src;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Sc {
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
}

pub const SCALARS: [Sc; 11] = [
    Sc::U8,
    Sc::I32,
    Sc::Bool,
    Sc::I8,
    Sc::I16,
    Sc::U16,
    Sc::U32,
    Sc::I64,
    Sc::U64,
    Sc::F32,
    Sc::F64,
];

impl Sc {
    pub fn size(self) -> usize {
        match self {
            Sc::Bool | Sc::I8 | Sc::U8 => 1,
            Sc::I16 | Sc::U16 => 2,
            Sc::I32 | Sc::U32 | Sc::F32 => 4,
            Sc::I64 | Sc::U64 | Sc::F64 => 8,
        }
    }
    pub fn norm(self, bits: u64) -> u64 {
        match self {
            Sc::Bool => bits & 1,
            _ => match self.size() {
                1 => bits & 0xff,
                2 => bits & 0xffff,
                4 => bits & 0xffff_ffff,
                _ => bits,
            },
        }
    }
    /// Equality of the values, as the type defines it.
    pub fn same(self, a: u64, b: u64) -> bool {
        match self {
            Sc::F32 => f32::from_bits(a as u32) == f32::from_bits(b as u32),
            Sc::F64 => f64::from_bits(a) == f64::from_bits(b),
            _ => a == b,
        }
    }
    pub fn gen(self, src: &mut Src) -> u64 {
        let b = match self {
            Sc::F32 => match src.weighted(&[3, 3, 2]) {
                0 => ((src.draw(20) as f32) - 10.0).to_bits() as u64,
                1 => {
                    let c = [
                        0.0f32,
                        -0.0,
                        1.5,
                        f32::INFINITY,
                        f32::NEG_INFINITY,
                        f32::NAN,
                        f32::MIN_POSITIVE,
                        f32::MAX,
                        f32::from_bits(1),
                        f32::from_bits(0x7fa0_0001),
                    ];
                    src.pick(&c).to_bits() as u64
                }
                _ => src.draw(1 << 32),
            },
            Sc::F64 => match src.weighted(&[3, 3, 2]) {
                0 => ((src.draw(20) as f64) - 10.0).to_bits(),
                1 => {
                    let c = [
                        0.0f64,
                        -0.0,
                        1.5,
                        f64::INFINITY,
                        f64::NEG_INFINITY,
                        f64::NAN,
                        f64::MIN_POSITIVE,
                        f64::MAX,
                        f64::from_bits(1),
                        f64::from_bits(0x7ff4_0000_0000_0001),
                    ];
                    src.pick(&c).to_bits()
                }
                _ => src.draw(0),
            },
            _ => src.bits(),
        };
        self.norm(b)
    }
}

pub type Id = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum FieldVal {
    /// Written always, or only when it differs from the default.
    Sc {
        sc: Sc,
        bits: u64,
        default: Option<u64>,
    },
    Ref(Id),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub slot: u16,
    pub val: FieldVal,
}

impl Field {
    pub fn size(&self) -> usize {
        match &self.val {
            FieldVal::Sc { sc, .. } => sc.size(),
            FieldVal::Ref(_) => 4,
        }
    }
    pub fn stored(&self) -> bool {
        match &self.val {
            FieldVal::Sc {
                sc,
                bits,
                default: Some(d),
            } => !sc.same(*bits, *d),
            _ => true,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    Str(String),
    /// A zero-terminated vector of bytes, not necessarily a string.
    Bytes(Vec<u8>),
    Vec(Sc, Vec<u64>),
    Refs(Vec<Id>),
    /// Fields in the order in which they are added.
    Tab(Vec<Field>),
}

/// Objects refer to earlier ones only.
#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub objs: Vec<Obj>,
    pub root: Id,
}

pub fn gen_string(src: &mut Src, max: usize) -> String {
    let n = src.len(max);
    let mode = src.below(4);
    let mut s = String::new();
    for _ in 0..n {
        let c = match mode {
            0 => (b'a' + src.draw(26) as u8) as char,
            1 => (b' ' + src.draw(95) as u8) as char,
            2 => *src.pick(&['a', '\0', 'é', 'ß', '→', '日', '🦀', '\u{10ffff}', '\n', '\u{7f}', '\u{80}']),
            _ => char::from_u32(src.draw(0x11_0000) as u32).unwrap_or('x'),
        };
        s.push(c);
    }
    s
}

#[derive(Clone, Copy)]
pub struct DocCfg {
    pub max_objs: usize,
    pub big_slots: bool,
    pub max_vec: usize,
}

impl Default for DocCfg {
    fn default() -> Self {
        DocCfg {
            max_objs: 60,
            big_slots: true,
            max_vec: 700,
        }
    }
}

fn gen_slot(src: &mut Src, cfg: &DocCfg) -> u16 {
    match src.weighted(&[60, 20, 6, if cfg.big_slots { 1 } else { 0 }]) {
        0 => src.draw(8) as u16,
        1 => src.draw(32) as u16,
        2 => src.draw(400) as u16,
        _ => *src.pick(&[1000u16, 4094, 16382, 32763, 32764]),
    }
}

fn gen_table(src: &mut Src, doc: &[Obj], cfg: &DocCfg, unused: &mut Vec<Id>, root: bool) -> Obj {
    // sometimes repeat the layout of an earlier table with other values
    let tabs: Vec<Id> = (0..doc.len())
        .filter(|i| matches!(doc[*i], Obj::Tab(_)))
        .collect();
    if !tabs.is_empty() && src.chance(if root { 1 } else { 3 }, 10) {
        let t = *src.pick(&tabs);
        if let Obj::Tab(fs) = &doc[t] {
            let mut out = Vec::new();
            for f in fs {
                let val = match &f.val {
                    FieldVal::Sc { sc, bits, default } => {
                        let keep = src.chance(1, 3);
                        FieldVal::Sc {
                            sc: *sc,
                            bits: if keep { *bits } else { sc.gen(src) },
                            default: *default,
                        }
                    }
                    FieldVal::Ref(_) => FieldVal::Ref(pick_ref(src, doc.len(), unused)),
                };
                out.push(Field { slot: f.slot, val });
            }
            return Obj::Tab(out);
        }
    }
    let mut fields: Vec<Field> = Vec::new();
    let avg = match (src.chance(1, 12), root) {
        (true, _) => 24,
        (_, true) => 6,
        _ => 3,
    };
    while fields.len() < 80 && src.more(avg) {
        let slot = gen_slot(src, cfg);
        let val = if !doc.is_empty() && src.chance(2, 5) {
            FieldVal::Ref(pick_ref(src, doc.len(), unused))
        } else {
            let sc = *src.pick(&SCALARS);
            let default = match src.weighted(&[3, 3, 1]) {
                0 => None,
                1 => Some(0),
                _ => Some(sc.gen(src)),
            };
            let bits = match default {
                Some(d) if src.chance(1, 4) => d,
                _ => sc.gen(src),
            };
            FieldVal::Sc { sc, bits, default }
        };
        if fields.iter().all(|f| f.slot != slot) {
            fields.push(Field { slot, val });
        }
    }
    if root && src.chance(4, 5) {
        // leave little unreachable
        let mut slot = 0;
        while let Some(i) = unused.pop() {
            while fields.iter().any(|f| f.slot == slot) {
                slot += 1;
            }
            let at = src.below(fields.len() + 1);
            fields.insert(
                at,
                Field {
                    slot,
                    val: FieldVal::Ref(i),
                },
            );
        }
    }
    Obj::Tab(fields)
}

fn pick_ref(src: &mut Src, n: usize, unused: &mut Vec<Id>) -> Id {
    if !unused.is_empty() && src.chance(3, 4) {
        let i = src.below(unused.len());
        unused.swap_remove(i)
    } else {
        src.below(n)
    }
}

pub fn gen_vec(src: &mut Src, cfg: &DocCfg) -> Obj {
    let sc = *src.pick(&SCALARS);
    let n = src.len(cfg.max_vec);
    let v = if n > 40 {
        // long vectors from few choices
        let seed = src.draw(0);
        (0..n as u64)
            .map(|i| sc.norm(crate::src::mix(seed, i)))
            .collect()
    } else {
        (0..n).map(|_| sc.gen(src)).collect()
    };
    Obj::Vec(sc, v)
}

pub fn gen_doc(src: &mut Src, cfg: &DocCfg) -> Doc {
    let mut objs: Vec<Obj> = Vec::new();
    let mut unused: Vec<Id> = Vec::new();
    let mut weights: Vec<usize> = Vec::new();
    let avg = 2 + src.size / 6;
    while objs.len() < cfg.max_objs && src.more(avg) {
        let o = match src.weighted(&[4, 3, 3, 2, 1]) {
            0 => gen_table(src, &objs, cfg, &mut unused, false),
            1 => Obj::Str(gen_string(src, 300)),
            2 => gen_vec(src, cfg),
            3 => {
                // vector of references to objects of one kind
                let kinds: Vec<u8> = objs.iter().map(kind).collect();
                if kinds.is_empty() {
                    Obj::Refs(Vec::new())
                } else {
                    let k = *src.pick(&kinds);
                    let of_kind: Vec<Id> = (0..objs.len()).filter(|i| kinds[*i] == k).collect();
                    let mut v = Vec::new();
                    while v.len() < 40 && src.more(4) {
                        let i = *src.pick(&of_kind);
                        unused.retain(|x| *x != i);
                        v.push(i);
                    }
                    Obj::Refs(v)
                }
            }
            _ => {
                let n = src.len(100);
                Obj::Bytes(src.bytes(n))
            }
        };
        let (o, w) = trim(o, &weights);
        unused.push(objs.len());
        objs.push(o);
        weights.push(w);
    }
    let root = gen_table(src, &objs, cfg, &mut unused, true);
    let (root, _) = trim(root, &weights);
    objs.push(root);
    let root = objs.len() - 1;
    Doc { objs, root }
}

/// Objects are shared, but read as a tree: keep the tree small.
fn trim(mut o: Obj, weights: &[usize]) -> (Obj, usize) {
    let mut w = 1;
    let mut fits = |i: Id| {
        if w + weights[i] > 1500 {
            false
        } else {
            w += weights[i];
            true
        }
    };
    match &mut o {
        Obj::Refs(v) => v.retain(|i| fits(*i)),
        Obj::Tab(fs) => fs.retain(|f| match f.val {
            FieldVal::Ref(i) => fits(i),
            _ => true,
        }),
        _ => {}
    }
    let extra = match &o {
        Obj::Vec(_, v) => v.len() / 8,
        Obj::Bytes(v) => v.len() / 8,
        Obj::Str(v) => v.len() / 8,
        _ => 0,
    };
    (o, w + extra)
}

fn kind(o: &Obj) -> u8 {
    match o {
        Obj::Str(_) => 0,
        Obj::Bytes(_) => 1,
        Obj::Vec(sc, _) => 10 + *sc as u8,
        Obj::Refs(_) => 2,
        Obj::Tab(_) => 3,
    }
}

impl Doc {
    pub fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.objs.len()];
        r[self.root] = true;
        for i in (0..self.objs.len()).rev() {
            if r[i] {
                for j in refs(&self.objs[i]) {
                    r[j] = true;
                }
            }
        }
        r
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (i, o) in self.objs.iter().enumerate() {
            s.push_str(&format!("#{} = {:?}; ", i, o));
        }
        s.push_str(&format!("root #{}", self.root));
        s
    }
}

pub fn refs(o: &Obj) -> Vec<Id> {
    match o {
        Obj::Refs(v) => v.clone(),
        Obj::Tab(fs) => fs
            .iter()
            .filter_map(|f| match f.val {
                FieldVal::Ref(i) => Some(i),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

// ---------------------------------------------------------------- reading

pub const E_OOB: u16 = 1;
pub const E_UTF8: u16 = 2;
pub const E_NUL: u16 = 4;
pub const E_ALIGN: u16 = 8;
pub const E_REQUIRED: u16 = 16;
pub const E_ENUM: u16 = 32;
pub const E_UNION: u16 = 64;
pub const E_OTHER: u16 = 128;
/// a byte that is no bool
pub const E_BOOL: u16 = 256;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Absent,
    Sc(u64),
    Str(String),
    Slice(Vec<u64>),
    /// declared length, and the elements looked at
    Vec(usize, Vec<Out>),
    Tab(Vec<Out>),
    /// any of these errors
    Err(u16),
    /// this value, or any of these errors (expected side only)
    OrErr(Box<Out>, u16),
}

/// Does what the code returned agree with what the model allows?
pub fn agrees(want: &Out, got: &Out) -> bool {
    match (want, got) {
        (Out::Err(w), Out::Err(g)) => w & g != 0,
        (Out::OrErr(o, _), Out::OrErr(p, _)) => agrees(o, p),
        (Out::OrErr(o, w), g) => match g {
            Out::Err(e) => w & e != 0,
            g => agrees(o, g),
        },
        (Out::Vec(n, a), Out::Vec(m, b)) => {
            n == m && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| agrees(x, y))
        }
        (Out::Tab(a), Out::Tab(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| agrees(x, y))
        }
        (a, b) => a == b,
    }
}

/// What to read, and how.
#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    /// a scalar field, with the default to ask for
    Sc(Sc, Option<u64>),
    Str,
    /// as a slice of scalars (never bool: any byte is a valid value for the rest)
    Slice(Sc),
    /// as a vector object; `how` selects among the ways to iterate
    Vec(Sc, u8),
    /// vector of offsets
    Refs(Box<Shape>, u8),
    /// vector of offsets, with a shape for each element
    Each(Vec<Shape>, u8),
    Tab(Vec<(u16, Shape)>),
}

/// The shape under which a document's object can be read back.
pub fn shape_of(doc: &Doc, id: Id, src: &mut Src) -> Shape {
    match &doc.objs[id] {
        Obj::Str(_) => match src.weighted(&[5, 1, 1]) {
            0 => Shape::Str,
            1 => Shape::Slice(Sc::U8),
            _ => Shape::Vec(Sc::U8, src.draw(4) as u8),
        },
        Obj::Bytes(_) => match src.below(2) {
            0 => Shape::Slice(Sc::U8),
            _ => Shape::Vec(Sc::U8, src.draw(4) as u8),
        },
        Obj::Vec(sc, _) => {
            if src.flag() {
                Shape::Slice(*sc)
            } else {
                Shape::Vec(*sc, src.draw(4) as u8)
            }
        }
        Obj::Refs(v) => {
            let each = v.iter().map(|i| shape_of(doc, *i, src)).collect();
            Shape::Each(each, src.draw(4) as u8)
        }
        Obj::Tab(fs) => {
            let mut out = Vec::new();
            for f in fs {
                out.push((
                    f.slot,
                    match &f.val {
                        FieldVal::Sc { sc, default, .. } => Shape::Sc(*sc, *default),
                        FieldVal::Ref(i) => shape_of(doc, *i, src),
                    },
                ));
            }
            // and fields nobody set
            for _ in 0..src.below(3) {
                let slot = if src.flag() { src.draw(10) } else { src.draw(32764) } as u16;
                if fs.iter().all(|f| f.slot != slot) {
                    let sh = match src.below(3) {
                        0 => {
                            let sc = *src.pick(&SCALARS);
                            let d = if src.flag() { Some(sc.gen(src)) } else { None };
                            Shape::Sc(sc, d)
                        }
                        1 => Shape::Str,
                        _ => Shape::Vec(Sc::I32, 0),
                    };
                    out.push((slot, sh));
                }
            }
            src.shuffle(&mut out);
            Shape::Tab(out)
        }
    }
}

pub const MAX_ELEMS: [usize; 6] = [1000, 1000, 400, 100, 20, 5];

fn cap(depth: usize, lenient: bool) -> usize {
    if lenient {
        [24, 12, 6, 4, 2, 1][depth.min(5)]
    } else {
        1 << 20
    }
}

pub fn elem_cap(depth: usize, lenient: bool) -> usize {
    cap(depth, lenient)
}

/// What reading the object must give.
pub fn expected(doc: &Doc, id: Id, shape: &Shape, aligned: bool) -> Out {
    match (&doc.objs[id], shape) {
        (Obj::Str(s), Shape::Str) => Out::Str(s.clone()),
        (Obj::Str(s), sh) => bytes_out(s.as_bytes(), sh),
        (Obj::Bytes(b), sh) => bytes_out(b, sh),
        (Obj::Vec(_, v), Shape::Slice(sc)) => {
            if aligned || sc.size() == 1 {
                Out::Slice(v.clone())
            } else {
                Out::OrErr(Box::new(Out::Slice(v.clone())), E_ALIGN)
            }
        }
        (Obj::Vec(_, v), Shape::Vec(..)) => Out::Vec(v.len(), v.iter().map(|x| Out::Sc(*x)).collect()),
        (Obj::Refs(v), Shape::Each(each, _)) => Out::Vec(
            v.len(),
            v.iter().zip(each).map(|(i, s)| expected(doc, *i, s, aligned)).collect(),
        ),
        (Obj::Tab(fs), Shape::Tab(slots)) => Out::Tab(
            slots
                .iter()
                .map(|(slot, sh)| {
                    match fs.iter().find(|f| f.slot == *slot) {
                        Some(f) => match (&f.val, sh) {
                            (FieldVal::Sc { bits, default, .. }, Shape::Sc(..)) => {
                                if f.stored() {
                                    Out::Sc(*bits)
                                } else {
                                    Out::Sc(default.unwrap())
                                }
                            }
                            (FieldVal::Ref(i), sh) => expected(doc, *i, sh, aligned),
                            _ => unreachable!(),
                        },
                        None => match sh {
                            Shape::Sc(_, Some(d)) => Out::Sc(*d),
                            _ => Out::Absent,
                        },
                    }
                })
                .collect(),
        ),
        (o, s) => unreachable!("{:?} {:?}", o, s),
    }
}

fn bytes_out(b: &[u8], sh: &Shape) -> Out {
    match sh {
        Shape::Slice(_) => Out::Slice(b.iter().map(|x| *x as u64).collect()),
        Shape::Vec(..) => Out::Vec(b.len(), b.iter().map(|x| Out::Sc(*x as u64)).collect()),
        _ => unreachable!(),
    }
}

// -------------------------------------------------- lenient reference reader

pub struct RefReader<'a> {
    pub buf: &'a [u8],
    /// look at few elements only (untrusted lengths)
    pub few: bool,
}

impl<'a> RefReader<'a> {
    pub fn rd(&self, pos: usize, n: usize) -> Result<u64, u16> {
        if n > self.buf.len() || pos > self.buf.len() - n {
            return Err(E_OOB);
        }
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.buf[pos + i] as u64) << (8 * i);
        }
        Ok(v)
    }
    pub fn uoffset(&self, pos: usize) -> Result<usize, u16> {
        Ok(pos + self.rd(pos, 4)? as usize)
    }
    pub fn vtable(&self, tab: usize) -> Result<usize, u16> {
        let so = self.rd(tab, 4)? as u32 as i32;
        let t = tab as i64 - so as i64;
        if t < 0 {
            Err(E_OOB)
        } else {
            Ok(t as usize)
        }
    }
    /// Position of a field's data, if the table has it.
    pub fn field(&self, tab: usize, slot: u16) -> Result<Option<usize>, u16> {
        let vt = self.vtable(tab)?;
        let n = self.rd(vt, 2)? as usize;
        let at = 4 + 2 * slot as usize;
        if at >= n {
            return Ok(None);
        }
        let off = self.rd(vt + at, 2)? as usize;
        Ok(if off == 0 { None } else { Some(tab + off) })
    }
    pub fn scalar(&self, pos: usize, sc: Sc) -> Result<u64, u16> {
        let v = self.rd(pos, sc.size())?;
        Ok(if sc == Sc::Bool { (v != 0) as u64 } else { v })
    }
    pub fn string(&self, pos: usize) -> Out {
        let n = match self.rd(pos, 4) {
            Ok(n) => n as usize,
            Err(e) => return Out::Err(e),
        };
        let start = pos + 4;
        if n >= self.buf.len() || start + n >= self.buf.len() {
            return Out::Err(E_OOB);
        }
        let mut bad = 0;
        if self.buf[start + n] != 0 {
            bad |= E_NUL;
        }
        match std::str::from_utf8(&self.buf[start..start + n]) {
            Ok(s) if bad == 0 => Out::Str(s.to_string()),
            Ok(_) => Out::Err(bad),
            Err(_) => Out::Err(bad | E_UTF8),
        }
    }
    pub fn slice(&self, pos: usize, sc: Sc) -> Out {
        let n = match self.rd(pos, 4) {
            Ok(n) => n as usize,
            Err(e) => return Out::Err(e),
        };
        let start = pos + 4;
        let bytes = n * sc.size();
        let addr = (self.buf.as_ptr() as usize).wrapping_add(start);
        let mis = addr % sc.size() != 0;
        if start + bytes > self.buf.len() {
            return Out::Err(E_OOB);
        }
        let v: Vec<u64> = (0..n)
            .map(|i| self.rd(start + i * sc.size(), sc.size()).unwrap())
            .collect();
        if mis {
            if n == 0 {
                Out::OrErr(Box::new(Out::Slice(v)), E_ALIGN)
            } else {
                Out::Err(E_ALIGN)
            }
        } else if sc == Sc::Bool && v.iter().any(|b| *b > 1) {
            Out::Err(E_BOOL)
        } else {
            Out::Slice(v)
        }
    }
    /// Read the object at `pos`.
    pub fn object(&self, pos: usize, sh: &Shape, depth: usize) -> Out {
        match sh {
            Shape::Sc(sc, _) => self.scalar(pos, *sc).map_or_else(Out::Err, Out::Sc),
            Shape::Str => self.string(pos),
            Shape::Slice(sc) => self.slice(pos, *sc),
            Shape::Vec(sc, _) => match self.rd(pos, 4) {
                Err(e) => Out::Err(e),
                Ok(n) => {
                    let n = n as usize;
                    Out::Vec(
                        n,
                        (0..n.min(cap(depth, self.few)))
                            .map(|i| {
                                self.scalar(pos + 4 + i * sc.size(), *sc)
                                    .map_or_else(Out::Err, Out::Sc)
                            })
                            .collect(),
                    )
                }
            },
            Shape::Refs(inner, _) => match self.rd(pos, 4) {
                Err(e) => Out::Err(e),
                Ok(n) => {
                    let n = n as usize;
                    Out::Vec(
                        n,
                        (0..n.min(cap(depth, self.few)))
                            .map(|i| match self.uoffset(pos + 4 + 4 * i) {
                                Err(e) => Out::Err(e),
                                Ok(p) => self.object(p, inner, depth + 1),
                            })
                            .collect(),
                    )
                }
            },
            Shape::Each(each, _) => match self.rd(pos, 4) {
                Err(e) => Out::Err(e),
                Ok(n) => Out::Vec(
                    n as usize,
                    each.iter()
                        .enumerate()
                        .map(|(i, sh)| match self.uoffset(pos + 4 + 4 * i) {
                            Err(e) => Out::Err(e),
                            Ok(p) => self.object(p, sh, depth + 1),
                        })
                        .collect(),
                ),
            },
            Shape::Tab(slots) => Out::Tab(
                slots
                    .iter()
                    .map(|(slot, sh)| match self.field(pos, *slot) {
                        Err(e) => Out::Err(e),
                        Ok(None) => match sh {
                            Shape::Sc(_, Some(d)) => Out::Sc(*d),
                            _ => Out::Absent,
                        },
                        Ok(Some(p)) => match sh {
                            Shape::Sc(..) => self.object(p, sh, depth),
                            _ => match self.uoffset(p) {
                                Err(e) => Out::Err(e),
                                Ok(q) => self.object(q, sh, depth + 1),
                            },
                        },
                    })
                    .collect(),
            ),
        }
    }
}

// ---------------------------------------------------- reference encoder

#[derive(Clone, Debug)]
pub struct Encoded {
    pub bytes: Vec<u8>,
    pub root_pos: usize,
    pub header: Header,
    /// positions of offsets, lengths and vtable entries: (position, width)
    pub marks: Vec<(usize, usize)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Header {
    pub prefixed: bool,
    pub ident: Option<[u8; 4]>,
}

/// Change an encoded buffer, mostly where its structure is; what was done.
pub fn damage(enc: &mut Encoded, src: &mut Src) -> Vec<String> {
    let mut what = Vec::new();
    let muts = 1 + src.weighted(&[6, 3, 1]);
    for _ in 0..muts {
        let b = &mut enc.bytes;
        if b.is_empty() {
            break;
        }
        match src.weighted(&[8, 3, 2, 1]) {
            0 => {
                let (p, w) = *src.pick(&enc.marks);
                if p + w > b.len() {
                    continue;
                }
                let mut old = 0u64;
                for i in 0..w {
                    old |= (b[p + i] as u64) << (8 * i);
                }
                let len = b.len() as u64;
                let v = match src.weighted(&[3, 3, 3, 2, 2, 2]) {
                    0 => old.wrapping_add(1 + src.draw(8)).wrapping_sub(4),
                    1 => (len.wrapping_sub(p as u64)).wrapping_add(src.draw(10)).wrapping_sub(5),
                    2 => *src.pick(&[0u64, 1, 2, 3, 4, 5, 6]),
                    3 => *src.pick(&[
                        0xffff_ffffu64,
                        0xffff_fffe,
                        0x7fff_ffff,
                        0x8000_0000,
                        0x8000_0001,
                        0x4000_0000,
                        0x2000_0000,
                        0x1fff_ffff,
                        0xffff_fffc,
                        0xfffe,
                    ]),
                    4 => src.draw(len + 8),
                    _ => src.draw(0),
                };
                for i in 0..w {
                    b[p + i] = (v >> (8 * i)) as u8;
                }
                what.push(format!("{} bytes at {} = {:#x}", w, p, v));
            }
            1 => {
                let p = src.below(b.len());
                let v = src.draw(256) as u8;
                b[p] = v;
                what.push(format!("byte at {} = {:#x}", p, v));
            }
            2 => {
                let k = src.below(b.len() + 1);
                b.truncate(k);
                what.push(format!("cut to {}", k));
            }
            _ => {
                let k = src.below(20);
                let x = src.bytes(k);
                b.extend_from_slice(&x);
                what.push(format!("extended by {}", k));
            }
        }
    }
    what
}

enum Item {
    Obj(Id),
    VTable(Id),
}

fn put(buf: &mut [u8], pos: usize, n: usize, v: u64) {
    for i in 0..n {
        buf[pos + i] = (v >> (8 * i)) as u8;
    }
}

fn align_up(p: usize, a: usize) -> usize {
    (p + a - 1) / a * a
}

/// Encode with a random valid layout.
pub fn encode(doc: &Doc, src: &mut Src, header: Header) -> Encoded {
    let reach = doc.reachable();
    let n = doc.objs.len();
    // a random order in which every object precedes what it refers to
    let mut indeg = vec![0usize; n];
    for i in 0..n {
        if reach[i] {
            for j in refs(&doc.objs[i]) {
                indeg[j] += 1;
            }
        }
    }
    let mut ready = vec![doc.root];
    let mut order = Vec::new();
    while !ready.is_empty() {
        let k = src.below(ready.len());
        let i = ready.swap_remove(k);
        order.push(i);
        for j in refs(&doc.objs[i]) {
            indeg[j] -= 1;
            if indeg[j] == 0 {
                ready.push(j);
            }
        }
    }
    let mut items: Vec<Item> = order.iter().map(|i| Item::Obj(*i)).collect();
    for &i in &order {
        if matches!(doc.objs[i], Obj::Tab(_)) {
            // the vtable right before its table, or anywhere
            let at = if src.chance(1, 2) {
                src.below(items.len() + 1)
            } else {
                items
                    .iter()
                    .position(|x| matches!(x, Item::Obj(j) if *j == i))
                    .unwrap()
            };
            items.insert(at, Item::VTable(i));
        }
    }
    let pad = src.chance(1, 3);
    let mut pos = 4 + if header.prefixed { 4 } else { 0 } + if header.ident.is_some() { 4 } else { 0 };
    let root_at = if header.prefixed { 4 } else { 0 };
    let mut at = vec![0usize; n];
    let mut vt_at = vec![0usize; n];
    let mut vt_len = vec![0usize; n];
    // field positions relative to the table, and its inline size
    let mut lay: BTreeMap<Id, (Vec<usize>, usize)> = BTreeMap::new();
    let mut spans = Vec::new();
    for it in &items {
        if pad {
            pos += src.below(9);
        }
        match it {
            Item::VTable(i) => {
                pos = align_up(pos, 2);
                let fs = match &doc.objs[*i] {
                    Obj::Tab(fs) => fs,
                    _ => unreachable!(),
                };
                let top = fs
                    .iter()
                    .filter(|f| f.stored())
                    .map(|f| f.slot as usize + 1)
                    .max()
                    .unwrap_or(0);
                let extra = if src.chance(1, 3) && top < 32000 { src.below(5) } else { 0 };
                vt_at[*i] = pos;
                vt_len[*i] = 4 + 2 * (top + extra);
                pos += vt_len[*i];
            }
            Item::Obj(i) => match &doc.objs[*i] {
                Obj::Str(s) => {
                    pos = align_up(pos, 4);
                    at[*i] = pos;
                    pos += 4 + s.len() + 1;
                }
                Obj::Bytes(b) => {
                    pos = align_up(pos, 4);
                    at[*i] = pos;
                    pos += 4 + b.len() + src.below(2);
                }
                Obj::Vec(sc, v) => {
                    pos = align_up(pos + 4, sc.size().max(4)) - 4;
                    at[*i] = pos;
                    pos += 4 + v.len() * sc.size();
                }
                Obj::Refs(v) => {
                    pos = align_up(pos, 4);
                    at[*i] = pos;
                    pos += 4 + 4 * v.len();
                }
                Obj::Tab(fs) => {
                    pos = align_up(pos, 4);
                    at[*i] = pos;
                    let start = pos;
                    pos += 4;
                    let mut idx: Vec<usize> = (0..fs.len()).collect();
                    src.shuffle(&mut idx);
                    let mut offs = vec![0usize; fs.len()];
                    // a table is at most 64 KB long
                    let pad = pad && fs.len() <= 3000;
                    for k in idx {
                        if !fs[k].stored() {
                            continue;
                        }
                        if pad {
                            pos += src.below(5);
                        }
                        pos = align_up(pos, fs[k].size());
                        offs[k] = pos - start;
                        pos += fs[k].size();
                    }
                    if pad {
                        pos += src.below(3);
                    }
                    lay.insert(*i, (offs, pos - start));
                }
            },
        }
        spans.push(pos);
    }
    if pad {
        pos += src.below(16);
    }
    // padding holds anything
    let fill = if src.flag() { src.draw(256) as u8 } else { 0 };
    let mut b = vec![fill; pos];
    let mut marks = Vec::new();
    put(&mut b, root_at, 4, (at[doc.root] - root_at) as u64);
    marks.push((root_at, 4));
    if header.prefixed {
        let n = b.len() as u64 - 4;
        put(&mut b, 0, 4, n);
        marks.push((0, 4));
    }
    if let Some(id) = header.ident {
        b[root_at + 4..root_at + 8].copy_from_slice(&id);
    }
    // which vtable each table uses: its own, or an equal one
    let vt_bytes = |i: Id| -> Vec<u8> {
        let fs = match &doc.objs[i] {
            Obj::Tab(fs) => fs,
            _ => unreachable!(),
        };
        let (offs, size) = &lay[&i];
        let mut v = vec![0u8; vt_len[i]];
        put(&mut v, 0, 2, vt_len[i] as u64);
        put(&mut v, 2, 2, *size as u64);
        for (f, o) in fs.iter().zip(offs) {
            if f.stored() {
                put(&mut v, 4 + 2 * f.slot as usize, 2, *o as u64);
            }
        }
        v
    };
    let share = src.flag();
    let mut known: Vec<(Vec<u8>, usize)> = Vec::new();
    for &i in &order {
        let p = at[i];
        match &doc.objs[i] {
            Obj::Str(s) => {
                put(&mut b, p, 4, s.len() as u64);
                b[p + 4..p + 4 + s.len()].copy_from_slice(s.as_bytes());
                b[p + 4 + s.len()] = 0;
                marks.push((p, 4));
                marks.push((p + 4 + s.len(), 1));
            }
            Obj::Bytes(x) => {
                put(&mut b, p, 4, x.len() as u64);
                b[p + 4..p + 4 + x.len()].copy_from_slice(x);
                marks.push((p, 4));
            }
            Obj::Vec(sc, v) => {
                put(&mut b, p, 4, v.len() as u64);
                marks.push((p, 4));
                for (k, x) in v.iter().enumerate() {
                    put(&mut b, p + 4 + k * sc.size(), sc.size(), *x);
                }
            }
            Obj::Refs(v) => {
                put(&mut b, p, 4, v.len() as u64);
                marks.push((p, 4));
                for (k, j) in v.iter().enumerate() {
                    let q = p + 4 + 4 * k;
                    put(&mut b, q, 4, (at[*j] - q) as u64);
                    marks.push((q, 4));
                }
            }
            Obj::Tab(fs) => {
                let vb = vt_bytes(i);
                let own = vt_at[i];
                b[own..own + vb.len()].copy_from_slice(&vb);
                let mut use_at = own;
                if share {
                    match known.iter().find(|(k, _)| *k == vb) {
                        Some((_, a)) => use_at = *a,
                        None => known.push((vb.clone(), own)),
                    }
                }
                put(&mut b, p, 4, (p as i64 - use_at as i64) as u32 as u64);
                marks.push((p, 4));
                for k in 0..vb.len() / 2 {
                    marks.push((use_at + 2 * k, 2));
                }
                let (offs, _) = &lay[&i];
                for (f, o) in fs.iter().zip(offs) {
                    if !f.stored() {
                        continue;
                    }
                    let q = p + o;
                    match &f.val {
                        FieldVal::Sc { sc, bits, .. } => put(&mut b, q, sc.size(), *bits),
                        FieldVal::Ref(j) => {
                            put(&mut b, q, 4, (at[*j] - q) as u64);
                            marks.push((q, 4));
                        }
                    }
                }
            }
        }
    }
    Encoded {
        bytes: b,
        root_pos: at[doc.root],
        header,
        marks,
    }
}

// -------------------------------------------------------- strict decoder

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Header,
    VTable,
    Table,
    Vector,
    Str,
}

#[derive(Clone, Debug, Default)]
pub struct Regions {
    /// start -> (size, kind)
    pub map: BTreeMap<usize, (usize, Kind)>,
    /// (position, required alignment, what)
    pub aligned: Vec<(usize, usize, &'static str)>,
    /// table position -> vtable position
    pub tables: BTreeMap<usize, usize>,
}

impl Regions {
    fn add(&mut self, pos: usize, size: usize, kind: Kind) -> Result<(), String> {
        if let Some(old) = self.map.insert(pos, (size, kind)) {
            if old != (size, kind) {
                return Err(format!(
                    "two different objects at {}: {:?} and {:?}",
                    pos,
                    old,
                    (size, kind)
                ));
            }
        }
        Ok(())
    }
    /// No two objects may share bytes.
    pub fn check_overlaps(&self, len: usize) -> Result<(), String> {
        let mut end = 0;
        for (p, (n, k)) in &self.map {
            if *p < end {
                return Err(format!("{:?} at {} overlaps what precedes it", k, p));
            }
            end = p + n;
        }
        if end > len {
            return Err("an object leaves the buffer".into());
        }
        Ok(())
    }
    pub fn check_alignment(&self) -> Result<(), String> {
        for (p, a, what) in &self.aligned {
            if p % a != 0 {
                return Err(format!(
                    "{} at {} is not aligned to {} bytes from the start of the buffer",
                    what, p, a
                ));
            }
        }
        Ok(())
    }
}

pub struct Strict<'a> {
    pub r: RefReader<'a>,
    pub regions: Regions,
}

impl<'a> Strict<'a> {
    pub fn new(buf: &'a [u8]) -> Self {
        Strict {
            r: RefReader { buf, few: false },
            regions: Regions::default(),
        }
    }
    fn rd(&self, p: usize, n: usize) -> Result<u64, String> {
        self.r
            .rd(p, n)
            .map_err(|_| format!("{} bytes at {} leave the buffer of {}", n, p, self.r.buf.len()))
    }
    fn uoff(&self, p: usize) -> Result<usize, String> {
        let v = self.rd(p, 4)? as usize;
        if v == 0 {
            return Err(format!("null offset at {}", p));
        }
        if v >= 1 << 31 {
            return Err(format!("offset at {} is negative", p));
        }
        Ok(p + v)
    }
    /// Header and root: position of the root object.
    pub fn header(&mut self, h: &Header) -> Result<usize, String> {
        let mut p = 0;
        if h.prefixed {
            let n = self.rd(0, 4)? as usize;
            if n != self.r.buf.len() - 4 {
                return Err(format!(
                    "size prefix {} in a buffer of {} bytes after it",
                    n,
                    self.r.buf.len() - 4
                ));
            }
            p = 4;
        }
        let root = self.uoff(p)?;
        self.regions.aligned.push((p, 4, "root offset"));
        let mut size = p + 4;
        if let Some(id) = h.ident {
            if self.r.buf.get(p + 4..p + 8) != Some(&id[..]) {
                return Err("file identifier is not after the root offset".into());
            }
            size += 4;
        }
        self.regions.add(0, size, Kind::Header)?;
        Ok(root)
    }
    /// Check that the document's object is at `pos`, and nothing else.
    pub fn object(&mut self, doc: &Doc, id: Id, pos: usize) -> Result<(), String> {
        match &doc.objs[id] {
            Obj::Str(s) => {
                let n = self.rd(pos, 4)? as usize;
                self.regions.aligned.push((pos, 4, "string length"));
                if n != s.len() {
                    return Err(format!("string length {} for {:?}", n, s));
                }
                if self.r.buf.get(pos + 4..pos + 4 + n) != Some(s.as_bytes()) {
                    return Err(format!("wrong bytes for string {:?}", s));
                }
                if self.rd(pos + 4 + n, 1)? != 0 {
                    return Err(format!("string {:?} is not zero-terminated", s));
                }
                self.regions.add(pos, 4 + n + 1, Kind::Str)
            }
            Obj::Bytes(x) => {
                let n = self.rd(pos, 4)? as usize;
                self.regions.aligned.push((pos, 4, "byte string length"));
                if n != x.len() || self.r.buf.get(pos + 4..pos + 4 + n) != Some(&x[..]) {
                    return Err(format!("wrong byte string for {:?}", x));
                }
                if self.rd(pos + 4 + n, 1)? != 0 {
                    return Err(format!("byte string {:?} is not zero-terminated", x));
                }
                self.regions.add(pos, 4 + n + 1, Kind::Str)
            }
            Obj::Vec(sc, v) => {
                let n = self.rd(pos, 4)? as usize;
                self.regions.aligned.push((pos, 4, "vector length"));
                if n != v.len() {
                    return Err(format!("vector length {} instead of {}", n, v.len()));
                }
                self.regions.aligned.push((pos + 4, sc.size(), "vector elements"));
                for (k, x) in v.iter().enumerate() {
                    let g = self.rd(pos + 4 + k * sc.size(), sc.size())?;
                    if g != *x {
                        return Err(format!("element {} of {:?} is {:#x} not {:#x}", k, sc, g, x));
                    }
                }
                self.regions.add(pos, 4 + n * sc.size(), Kind::Vector)
            }
            Obj::Refs(v) => {
                let n = self.rd(pos, 4)? as usize;
                self.regions.aligned.push((pos, 4, "vector length"));
                if n != v.len() {
                    return Err(format!("vector length {} instead of {}", n, v.len()));
                }
                self.regions.add(pos, 4 + 4 * n, Kind::Vector)?;
                for (k, j) in v.iter().enumerate() {
                    let q = self.uoff(pos + 4 + 4 * k)?;
                    self.object(doc, *j, q)?;
                }
                Ok(())
            }
            Obj::Tab(fs) => {
                self.regions.aligned.push((pos, 4, "table"));
                let vt = self
                    .r
                    .vtable(pos)
                    .map_err(|_| format!("table at {}: vtable leaves the buffer", pos))?;
                self.regions.aligned.push((vt, 2, "vtable"));
                let vn = self.rd(vt, 2)? as usize;
                let tn = self.rd(vt + 2, 2)? as usize;
                if vn < 4 || vn % 2 != 0 {
                    return Err(format!("vtable at {} claims {} bytes", vt, vn));
                }
                if vt + vn > self.r.buf.len() {
                    return Err(format!("vtable at {} leaves the buffer", vt));
                }
                if tn < 4 || pos + tn > self.r.buf.len() {
                    return Err(format!("table at {} claims {} inline bytes", pos, tn));
                }
                self.regions.add(vt, vn, Kind::VTable)?;
                self.regions.add(pos, tn, Kind::Table)?;
                self.regions.tables.insert(pos, vt);
                let slots = (vn - 4) / 2;
                let mut used: Vec<(usize, usize)> = vec![(0, 4)];
                for s in 0..slots {
                    let off = self.rd(vt + 4 + 2 * s, 2)? as usize;
                    let f = fs.iter().find(|f| f.slot as usize == s && f.stored());
                    match f {
                        None if off != 0 => {
                            return Err(format!("slot {} was never stored but is at {}", s, off))
                        }
                        None => {}
                        Some(_) if off == 0 => return Err(format!("slot {} is absent", s)),
                        Some(f) => {
                            let sz = f.size();
                            if off < 4 || off + sz > tn {
                                return Err(format!(
                                    "slot {} at {}..{} is outside its table of {} bytes",
                                    s,
                                    off,
                                    off + sz,
                                    tn
                                ));
                            }
                            used.push((off, sz));
                            match &f.val {
                                FieldVal::Sc { sc, bits, .. } => {
                                    self.regions.aligned.push((pos + off, sc.size(), "scalar field"));
                                    let g = self.rd(pos + off, sz)?;
                                    if g != *bits {
                                        return Err(format!(
                                            "slot {} ({:?}) holds {:#x} not {:#x}",
                                            s, sc, g, bits
                                        ));
                                    }
                                }
                                FieldVal::Ref(j) => {
                                    self.regions.aligned.push((pos + off, 4, "offset field"));
                                    let q = self.uoff(pos + off)?;
                                    self.object(doc, *j, q)?;
                                }
                            }
                        }
                    }
                }
                for f in fs {
                    if f.stored() && f.slot as usize >= slots {
                        return Err(format!("slot {} is missing from the vtable", f.slot));
                    }
                }
                used.sort();
                for w in used.windows(2) {
                    if w[0].0 + w[0].1 > w[1].0 {
                        return Err(format!("fields overlap in the table at {}", pos));
                    }
                }
                Ok(())
            }
        }
    }
}

// ------------------------------------------------------- guarded memory

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;

/// Memory with unreadable pages on both sides, so that reading outside a
/// buffer placed at its edge kills the process.
pub struct Guard {
    base: *mut u8,
    len: usize,
}

impl Guard {
    pub fn new(len: usize) -> Guard {
        let len = align_up(len, PAGE);
        unsafe {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS
            let p = mmap(std::ptr::null_mut(), len + 2 * PAGE, 3, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap failed");
            assert_eq!(mprotect(p, PAGE, 0), 0);
            assert_eq!(mprotect(p.add(PAGE + len), PAGE, 0), 0);
            Guard {
                base: p.add(PAGE),
                len,
            }
        }
    }
    /// The bytes, ending right before the unreadable page (`at_end`), or
    /// `shift` bytes after the other one.
    pub fn place(&mut self, b: &[u8], at_end: bool, shift: usize) -> &[u8] {
        assert!(b.len() + shift <= self.len, "case too large");
        let at = if at_end { self.len - b.len() } else { shift };
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.base.add(at), b.len());
            std::slice::from_raw_parts(self.base.add(at), b.len())
        }
    }
    pub fn capacity(&self) -> usize {
        self.len
    }
}

thread_local! {
    static GUARD: std::cell::RefCell<Guard> = std::cell::RefCell::new(Guard::new(4 << 20));
}

pub fn with_guarded<T>(b: &[u8], at_end: bool, shift: usize, f: impl FnOnce(&[u8]) -> T) -> T {
    GUARD.with(|g| f(g.borrow_mut().place(b, at_end, shift)))
}
