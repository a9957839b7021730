//! What the generated modules offer to the checks, without their types.

use crate::val::*;
use butte::{Error, FlatBufferBuilder};
use vpbt::wire::*;

pub struct TableGlue {
    /// create the table and finish the buffer with it
    pub build: fn(&mut FlatBufferBuilder<'static>, &Val, Finish),
    /// read the buffer's root in the given way (see `SIZED`)
    pub read: fn(&[u8], &Lim, u8) -> Got,
    /// finish a table that got no field at all
    pub bare: fn(&mut FlatBufferBuilder<'static>),
    /// the offsets of the fields in a vtable, in the order of slots
    pub vts: &'static [u16],
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Finish {
    Minimal,
    Ident(&'static str),
    Sized(Option<&'static str>),
}

/// Ways to read a root: bit 0: from an owned buffer instead of a slice;
/// bits 1 and 2: the type's own function, the runtime's, by way of the
/// untyped table, or through it and back; and the size prefix.
pub const WAYS: usize = 8;
pub const SIZED: u8 = 8;

/// Tables can be copied, compared and printed.
pub fn plain<T: Copy + Clone + PartialEq + std::fmt::Debug>(x: T) -> T {
    #[allow(clippy::clone_on_copy)]
    let y = x.clone();
    y
}

pub struct EnumGlue {
    /// number of a variant (by its index)
    pub number: fn(usize) -> u64,
    /// index of a number
    pub from: fn(u64) -> Result<usize, Got>,
    pub name: fn(usize) -> &'static str,
    pub default: fn() -> usize,
    pub size: usize,
    /// push and follow one value in some bytes
    pub push: fn(usize, &mut [u8]),
    pub follow: fn(&[u8], usize) -> Result<usize, Got>,
}

pub struct SchemaGlue {
    pub tables: &'static [TableGlue],
    pub enums: &'static [EnumGlue],
    /// companions of the unions; index 0 is none
    pub unions: &'static [EnumGlue],
}

pub fn err(e: Error) -> Got {
    let (m, n) = match e {
        Error::OutOfBounds => (E_OOB, None),
        Error::NonUtf8String => (E_UTF8, None),
        Error::NonNullTerminatedString => (E_NUL, None),
        Error::RequiredFieldMissing(n) => (E_REQUIRED, Some(n.to_string())),
        Error::UnknownEnumVariant => (E_ENUM, None),
        Error::MisalignedSlice => (E_ALIGN, None),
        _ => (E_OTHER, None),
    };
    Got::Err(m, n)
}

/// A field that may be absent.
pub fn opt<T>(r: Result<Option<T>, Error>, f: impl FnOnce(T) -> Got) -> Got {
    match r {
        Ok(Some(x)) => f(x),
        Ok(None) => Got::Absent,
        Err(e) => err(e),
    }
}

/// A required field.
pub fn req<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Got) -> Got {
    match r {
        Ok(x) => f(x),
        Err(e) => err(e),
    }
}

/// A vector's elements, looked at in the way `lim` says.
pub fn vector<'a, T>(v: butte::Vector<'a, T>, lim: &Lim, depth: usize, f: impl Fn(T::Inner) -> Got) -> Got
where
    T: butte::Follow<'a> + 'a,
{
    let n = match v.len() {
        Ok(n) => n,
        Err(e) => return err(e),
    };
    let cap = lim.cap(n, depth);
    let mut out = Vec::new();
    match lim.how % 4 {
        0 => {
            for i in 0..cap {
                out.push(req(v.get(i), &f));
            }
        }
        1 => {
            for x in v.iter().take(cap) {
                out.push(req(x, &f));
            }
        }
        2 if n - cap < 10_000 => {
            // from the back, then looked at in order
            let mut items: Vec<_> = v.iter().rev().skip(n - cap).collect();
            items.reverse();
            for x in items {
                out.push(req(x, &f));
            }
        }
        _ => {
            // by position, the iterator moved to it each time
            for i in 0..cap {
                match v.iter().nth(i) {
                    Some(x) => out.push(req(x, &f)),
                    None => break,
                }
            }
        }
    }
    Got::Vec(n, out)
}

pub fn str_got(s: &str) -> Got {
    Got::Str(s.to_string())
}
