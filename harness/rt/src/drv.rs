//! Driving butte's runtime from the model: build documents, read shapes.

use butte::*;
use vpbt::src::mix;
use vpbt::wire::*;
use vpbt::Src;

pub trait Scalar: Copy {
    fn of(bits: u64) -> Self;
    fn bits(self) -> u64;
}
macro_rules! int_scalar { ($($t:ty),*) => { $(impl Scalar for $t {
    fn of(b: u64) -> Self { b as $t }
    fn bits(self) -> u64 {
        let mut v = [0u8; 8];
        let le = self.to_le_bytes();
        v[..le.len()].copy_from_slice(&le);
        u64::from_le_bytes(v)
    }
})* } }
int_scalar!(u8, i8, u16, i16, u32, i32, u64, i64);
impl Scalar for bool {
    fn of(b: u64) -> Self {
        b != 0
    }
    fn bits(self) -> u64 {
        self as u64
    }
}
impl Scalar for f32 {
    fn of(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Scalar for f64 {
    fn of(b: u64) -> Self {
        f64::from_bits(b)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}

/// Run the body with T standing for the scalar's Rust type.
#[macro_export]
macro_rules! with_sc {
    ($sc:expr, $T:ident => $body:expr) => {
        match $sc {
            Sc::Bool => {
                type $T = bool;
                $body
            }
            Sc::I8 => {
                type $T = i8;
                $body
            }
            Sc::U8 => {
                type $T = u8;
                $body
            }
            Sc::I16 => {
                type $T = i16;
                $body
            }
            Sc::U16 => {
                type $T = u16;
                $body
            }
            Sc::I32 => {
                type $T = i32;
                $body
            }
            Sc::U32 => {
                type $T = u32;
                $body
            }
            Sc::I64 => {
                type $T = i64;
                $body
            }
            Sc::U64 => {
                type $T = u64;
                $body
            }
            Sc::F32 => {
                type $T = f32;
                $body
            }
            Sc::F64 => {
                type $T = f64;
                $body
            }
        }
    };
}
/// The same without bool, for which there is no safe_slice.
#[macro_export]
macro_rules! with_num {
    ($sc:expr, $T:ident => $body:expr, bool => $b:expr) => {
        match $sc {
            Sc::Bool => $b,
            Sc::I8 => {
                type $T = i8;
                $body
            }
            Sc::U8 => {
                type $T = u8;
                $body
            }
            Sc::I16 => {
                type $T = i16;
                $body
            }
            Sc::U16 => {
                type $T = u16;
                $body
            }
            Sc::I32 => {
                type $T = i32;
                $body
            }
            Sc::U32 => {
                type $T = u32;
                $body
            }
            Sc::I64 => {
                type $T = i64;
                $body
            }
            Sc::U64 => {
                type $T = u64;
                $body
            }
            Sc::F32 => {
                type $T = f32;
                $body
            }
            Sc::F64 => {
                type $T = f64;
                $body
            }
        }
    };
}

pub type Fbb = FlatBufferBuilder<'static>;

/// Which of the equivalent calls to use for each object.
#[derive(Clone, Debug)]
pub struct Plan(pub u64);

impl Plan {
    pub fn gen(src: &mut Src) -> Plan {
        Plan(src.draw(1 << 16))
    }
    fn api(&self, id: Id, n: u64) -> u64 {
        if self.0 == 0 {
            0
        } else {
            mix(self.0, id as u64) % n
        }
    }
}

pub fn slot_off(slot: u16) -> u16 {
    4 + 2 * slot
}

pub fn push_field(fbb: &mut Fbb, f: &Field, offs: &[u32]) {
    let so = slot_off(f.slot);
    match &f.val {
        FieldVal::Sc { sc, bits, default } => with_sc!(*sc, T => match default {
            None => fbb.push_slot_always::<T>(so, T::of(*bits)),
            Some(d) => fbb.push_slot::<T>(so, T::of(*bits), T::of(*d)),
        }),
        FieldVal::Ref(j) => {
            let w: WIPOffset<UnionWIPOffset> = WIPOffset::new(offs[*j]);
            fbb.push_slot_always(so, w)
        }
    }
}

pub fn build_obj(fbb: &mut Fbb, doc: &Doc, id: Id, offs: &[u32], plan: &Plan) -> u32 {
    match &doc.objs[id] {
        Obj::Str(s) => match plan.api(id, 3) {
            2 => fbb.create_byte_string(s.as_bytes()).value(),
            _ => fbb.create_string(s).value(),
        },
        Obj::Bytes(b) => fbb.create_byte_string(b).value(),
        Obj::Vec(sc, v) => match plan.api(id, 3) {
            0 => with_sc!(*sc, T => {
                let items: Vec<T> = v.iter().map(|b| T::of(*b)).collect();
                fbb.create_vector(&items).value()
            }),
            1 => with_num!(*sc, T => {
                let items: Vec<T> = v.iter().map(|b| T::of(*b)).collect();
                fbb.create_vector_direct(&items).value()
            }, bool => {
                let items: Vec<bool> = v.iter().map(|b| *b != 0).collect();
                fbb.create_vector(&items).value()
            }),
            _ => with_sc!(*sc, T => {
                fbb.start_vector::<T>(v.len());
                for b in v.iter().rev() {
                    fbb.push::<T>(T::of(*b));
                }
                fbb.end_vector::<T>(v.len()).value()
            }),
        },
        Obj::Refs(v) => {
            let ws: Vec<WIPOffset<UnionWIPOffset>> =
                v.iter().map(|j| WIPOffset::new(offs[*j])).collect();
            let strs: Option<Vec<&str>> = v
                .iter()
                .map(|j| match &doc.objs[*j] {
                    Obj::Str(s) => Some(s.as_str()),
                    _ => None,
                })
                .collect();
            match (plan.api(id, 3), strs) {
                (0, Some(strs)) => fbb.create_vector_of_strings(&strs).value(),
                (1, _) => {
                    fbb.start_vector::<WIPOffset<UnionWIPOffset>>(v.len());
                    for w in ws.iter().rev() {
                        fbb.push(*w);
                    }
                    fbb.end_vector::<WIPOffset<UnionWIPOffset>>(v.len()).value()
                }
                _ => fbb.create_vector(&ws).value(),
            }
        }
        Obj::Tab(fs) => {
            let t = fbb.start_table();
            for f in fs {
                push_field(fbb, f, offs);
            }
            fbb.end_table(t).value()
        }
    }
}

/// Build every object; the offset of each.
pub fn build(fbb: &mut Fbb, doc: &Doc, plan: &Plan) -> Vec<u32> {
    let mut offs = Vec::new();
    for id in 0..doc.objs.len() {
        let o = build_obj(fbb, doc, id, &offs, plan);
        offs.push(o);
    }
    offs
}

pub fn gen_header(src: &mut Src) -> Header {
    let prefixed = src.flag();
    let ident = if src.flag() {
        let mut id = [0u8; 4];
        for b in &mut id {
            *b = src.draw(128) as u8;
        }
        Some(id)
    } else {
        None
    };
    Header { prefixed, ident }
}

pub fn finish(fbb: &mut Fbb, root: u32, h: &Header, minimal: bool) {
    let w: WIPOffset<TableFinishedWIPOffset> = WIPOffset::new(root);
    let id = h.ident.map(|i| String::from_utf8(i.to_vec()).unwrap());
    match (h.prefixed, &id) {
        (true, id) => fbb.finish_size_prefixed(w, id.as_deref()),
        (false, None) if minimal => fbb.finish_minimal(w),
        (false, id) => fbb.finish(w, id.as_deref()),
    }
}

pub fn gen_capacity(src: &mut Src) -> usize {
    match src.weighted(&[3, 3, 2, 2]) {
        0 => 0,
        1 => src.range(1, 70),
        2 => 1 << src.range(0, 12),
        _ => src.range(1, 5000),
    }
}

// ------------------------------------------------------------------ reading

/// Where an offset leads.
pub struct Loc;
impl<'a> Follow<'a> for Loc {
    type Inner = (&'a [u8], usize);
    fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
        Ok((buf, loc))
    }
}

pub fn err(e: Error) -> Out {
    Out::Err(mask(e))
}
pub fn mask(e: Error) -> u16 {
    // the text too must be available
    let _ = e.to_string();
    match e {
        Error::OutOfBounds => E_OOB,
        Error::NonUtf8String => E_UTF8,
        Error::NonNullTerminatedString => E_NUL,
        Error::RequiredFieldMissing(_) => E_REQUIRED,
        Error::UnknownEnumVariant => E_ENUM,
        Error::UnknownUnionVariant => E_UNION,
        Error::MisalignedSlice => E_ALIGN,
        Error::InvalidBool => E_BOOL,
        _ => E_OTHER,
    }
}

fn take_vec<'a, T: Follow<'a> + 'a>(
    v: Vector<'a, T>,
    how: u8,
    cap: usize,
    mut f: impl FnMut(usize, T::Inner) -> Out,
) -> Out {
    let n = match v.len() {
        Ok(n) => n,
        Err(e) => return err(e),
    };
    let k = n.min(cap);
    let mut out: Vec<Out> = Vec::new();
    match how {
        0 => {
            for (i, x) in v.iter().take(k).enumerate() {
                out.push(x.map_or_else(err, |x| f(i, x)));
            }
        }
        1 => {
            for i in 0..k {
                out.push(v.get(i).map_or_else(err, |x| f(i, x)));
            }
        }
        2 if n == k => {
            let mut it = v.iter();
            let mut i = n;
            while let Some(x) = it.next_back() {
                i = i.wrapping_sub(1);
                out.push(x.map_or_else(err, |x| f(i, x)));
            }
            out.reverse();
        }
        2 => {
            let mut it = v.iter();
            for i in 0..k {
                match it.nth(0) {
                    Some(x) => out.push(x.map_or_else(err, |x| f(i, x))),
                    None => break,
                }
            }
        }
        _ => {
            for (i, x) in (&v).into_iter().enumerate() {
                if i >= k {
                    break;
                }
                out.push(x.map_or_else(err, |x| f(i, x)));
            }
        }
    }
    Out::Vec(n, out)
}

fn slice_out<T: Scalar>(a: Result<&[T], Error>, b: Result<&[T], Error>) -> Out {
    let get = |r: Result<&[T], Error>| match r {
        Ok(s) => Out::Slice(s.iter().map(|x| x.bits()).collect()),
        Err(e) => err(e),
    };
    let (a, b) = (get(a), get(b));
    if a != b {
        // the two views of the same data disagree
        return Out::Err(E_OTHER);
    }
    a
}

/// Read the object at `loc` through butte.
pub fn object(buf: &[u8], loc: usize, sh: &Shape, depth: usize, few: bool) -> Out {
    let cap = elem_cap(depth, few);
    match sh {
        Shape::Sc(sc, _) => with_sc!(*sc, T => {
            <T as Follow>::follow(buf, loc).map_or_else(err, |x| Out::Sc(x.bits()))
        }),
        Shape::Str => <&str>::follow(buf, loc).map_or_else(err, |s| Out::Str(s.to_string())),
        Shape::Slice(sc) => with_num!(*sc, T => {
            slice_out::<T>(<&[T]>::follow(buf, loc), Vector::<T>::new(buf, loc).safe_slice())
        }, bool => slice_out::<bool>(<&[bool]>::follow(buf, loc), <&[bool]>::follow(buf, loc))),
        Shape::Vec(sc, how) => with_sc!(*sc, T => {
            match <Vector<T>>::follow(buf, loc) {
                Ok(v) => take_vec(v, *how, cap, |_, x| Out::Sc(x.bits())),
                Err(e) => err(e),
            }
        }),
        Shape::Refs(inner, how) => match &**inner {
            Shape::Str => match <Vector<ForwardsUOffset<&str>>>::follow(buf, loc) {
                Ok(v) => take_vec(v, *how, cap, |_, x| Out::Str(x.to_string())),
                Err(e) => err(e),
            },
            inner => match <Vector<ForwardsUOffset<Loc>>>::follow(buf, loc) {
                Ok(v) => take_vec(v, *how, cap, |_, (b, l)| object(b, l, inner, depth + 1, few)),
                Err(e) => err(e),
            },
        },
        Shape::Each(each, how) => match <Vector<ForwardsUOffset<Loc>>>::follow(buf, loc) {
            Ok(v) => take_vec(v, *how, usize::MAX, |i, (b, l)| match each.get(i) {
                Some(sh) => object(b, l, sh, depth + 1, few),
                None => Out::Err(E_OTHER),
            }),
            Err(e) => err(e),
        },
        Shape::Tab(slots) => table(&Table::new(buf, loc), slots, depth, few),
    }
}

fn opt(r: Result<Option<Out>, Error>) -> Out {
    match r {
        Ok(Some(o)) => o,
        Ok(None) => Out::Absent,
        Err(e) => err(e),
    }
}

pub fn table<B: AsRef<[u8]>>(t: &Table<B>, slots: &[(u16, Shape)], depth: usize, few: bool) -> Out {
    let cap = elem_cap(depth + 1, few);
    Out::Tab(
        slots
            .iter()
            .map(|(slot, sh)| {
                let so = slot_off(*slot);
                match sh {
                    Shape::Sc(sc, d) => with_sc!(*sc, T => {
                        opt(t.get::<T>(so, d.map(T::of)).map(|o| o.map(|x| Out::Sc(x.bits()))))
                    }),
                    Shape::Str => opt(t
                        .get::<ForwardsUOffset<&str>>(so, None)
                        .map(|o| o.map(|s| Out::Str(s.to_string())))),
                    Shape::Slice(sc) => with_sc!(*sc, T => {
                        opt(t.get::<ForwardsUOffset<&[T]>>(so, None).map(|o| o.map(|s| {
                            Out::Slice(s.iter().map(|x| x.bits()).collect())
                        })))
                    }),
                    Shape::Vec(sc, how) => with_sc!(*sc, T => {
                        opt(t.get::<ForwardsUOffset<Vector<T>>>(so, None).map(|o| o.map(|v| {
                            take_vec(v, *how, cap, |_, x| Out::Sc(x.bits()))
                        })))
                    }),
                    sh => opt(t
                        .get::<ForwardsUOffset<Loc>>(so, None)
                        .map(|o| o.map(|(b, l)| object(b, l, sh, depth + 1, few)))),
                }
            })
            .collect(),
    )
}

pub fn show_bytes(b: &[u8]) -> String {
    let n = b.len().min(400);
    let mut s: String = b[..n].iter().map(|x| format!("{:02x}", x)).collect();
    if n < b.len() {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}
