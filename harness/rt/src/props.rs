//! The runtime's properties.

use crate::drv::*;
use crate::with_sc;
use butte::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use vpbt::run::catch;
use vpbt::src::{hash_bytes, mix};
use vpbt::wire::*;
use vpbt::{Ctx, Part, Prop, Src};

fn part(name: &'static str, run: vpbt::run::CaseFn, quick: u64, thorough: u64) -> Part {
    Part {
        name,
        run,
        quick: quick * 8,
        thorough: thorough * 4,
        debug_only: false,
    }
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            known: vec![],
            parts: vec![
                part("round-trip", round_trip, 60_000, 3_000_000),
                part("large", round_trip_large, 400, 20_000),
            ],
            rule: "Random documents (DAGs of tables, strings, byte strings, scalar vectors, vectors of offsets; shared sub-objects; slots up to 32764) built through randomly chosen equivalent builder calls at a random initial capacity, finished in one of the four ways, read back field by field; non-trivial = the root reaches at least two other objects; distinct = by finished bytes.",
            assumptions: &["Floats are compared by bit pattern, except that a value equal (==) to its default is read back as the default."],
        },
        Prop {
            id: "C02",
            known: vec![],
            parts: vec![
                part("strict decode", conformance, 60_000, 3_000_000),
                part("large", conformance_large, 400, 20_000),
            ],
            rule: "The documents of C01, decoded from the finished bytes by an independent strict decoder of the FlatBuffers format; non-trivial = at least one table with a stored field besides an offset and one more object; distinct = by finished bytes.",
            assumptions: &["Little-endian host."],
        },
        Prop {
            id: "C03",
            known: vec![],
            parts: vec![
                part("alignment", alignment, 60_000, 3_000_000),
                part("large", alignment_large, 400, 20_000),
            ],
            rule: "The documents of C01; every scalar, offset, vector, string, table and vtable found by the strict decoder must be aligned from the start of the buffer; non-trivial = something needs 8-byte alignment; distinct = by finished bytes.",
            assumptions: &[],
        },
        Prop {
            id: "C04",
            known: vec![],
            parts: vec![
                part("foreign layouts", foreign, 60_000, 3_000_000),
                part("large", foreign_large, 300, 15_000),
            ],
            rule: "Random documents encoded by an independent encoder with random layout (object order, vtable placement before or after, vtable sharing, padding with arbitrary contents, field order, trailing vtable entries), placed at a random address between unreadable pages, read through slices, vectors, boxes and reference-counted buffers; non-trivial = the root reaches at least two objects; distinct = by bytes.",
            assumptions: &[],
        },
        Prop {
            id: "C05",
            known: vec![],
            parts: vec![
                part("mutated", untrusted_mutated, 150_000, 8_000_000),
                part("random", untrusted_random, 80_000, 4_000_000),
                part("vtable", untrusted_vtable, 40_000, 2_000_000),
                part("follow", untrusted_follow, 100_000, 5_000_000),
                part("large", untrusted_large, 300, 15_000),
            ],
            rule: "Valid buffers with corrupted offsets, lengths, vtable entries, terminators, arbitrary bytes, truncations and extensions, and random bytes; read under a random shape between unreadable pages and compared with an independent lenient reader; the building blocks of the readers in any combination at any place; non-trivial = the model's outcome contains both a value and an error, or an error other than at the root (building blocks: they lead to another place inside or outside the buffer); distinct = by bytes and shape.",
            assumptions: &["Vector::get is called with an index below len only (larger ones are refused by a debug assertion, see C10)."],
        },
        Prop {
            id: "C06",
            known: vec![],
            parts: vec![
                part("reset", history, 40_000, 2_000_000),
                part("capacity", capacity, 40_000, 2_000_000),
                part("reset, large", history_large, 200, 10_000),
                part("capacity, large", capacity_large, 200, 10_000),
            ],
            rule: "A builder with a history (documents finished or abandoned at a random point, then reset; clones; other initial capacities) builds a document: bytes must equal those of a fresh builder; non-trivial = the history wrote at least one object (reset) or the capacities differ and the data exceeds the smaller (capacity); distinct = by finished bytes and history.",
            assumptions: &[],
        },
        Prop {
            id: "C07",
            known: vec![],
            parts: vec![
                part("dedup", dedup, 60_000, 3_000_000),
                part("many", dedup_many, 300, 15_000),
            ],
            rule: "Documents with many tables of few layouts; after each table the number of stored vtables must be the number of distinct vtable contents, and equal contents must be the same vtable; non-trivial = some vtable is shared and there are at least two distinct ones; distinct = by unfinished bytes.",
            assumptions: &[],
        },
        Prop {
            id: "C08",
            known: vec![],
            parts: vec![
                part("iterators", iterators, 120_000, 6_000_000),
                part("access", vec_access, 60_000, 3_000_000),
                part("long", iterators_long, 200, 10_000),
            ],
            rule: "Random sequences of next, next_back, nth, nth_back, len, size_hint, clone, last, rev, skip on vectors of scalars, strings and tables against a double-ended queue; and get, len, is_empty, iterators, slices against the list; the same on vectors of up to 140000 elements; non-trivial = at least three elements and both ends used (iterators), at least one element (access); distinct = by contents and operations.",
            assumptions: &["get is called with an index below len."],
        },
        Prop {
            id: "C09",
            known: vec![],
            parts: vec![
                part("scalars", scalars, 200_000, 10_000_000),
            ],
            rule: "A random scalar of each type emplaced at a random offset of a random buffer and read back at every offset, including past the end, compared with little-endian byte arithmetic; non-trivial = wider than one byte; distinct = by value, offset and length.",
            assumptions: &["Little-endian host; the byte-swapping functions themselves are checked directly."],
        },
        Prop {
            id: "C10",
            known: vec![],
            parts: vec![
                Part { name: "protocol", run: protocol, quick: 400_000, thorough: 10_000_000, debug_only: true },
                Part { name: "index", run: index_refused, quick: 10_000, thorough: 200_000, debug_only: true },
                part("required", required, 30_000, 1_000_000),
                Part { name: "limits", run: limits, quick: 300, thorough: 5_000, debug_only: true },
                part("growth", growth, 1, 8),
            ],
            rule: "Random call sequences on a builder against a protocol state machine: calls that are valid in the current state must be accepted, the first invalid one must be refused (panic), and after reset the builder must work as new; non-trivial = the sequence contains an invalid call after at least one accepted call (protocol), both outcomes by construction elsewhere; distinct = by call sequence.",
            assumptions: &["Protocol refusals are debug assertions: they are checked in builds with debug assertions, `required` and the capacity limit in all builds."],
        },
        Prop {
            id: "C11",
            known: vec![],
            parts: vec![part("finish", finishing, 80_000, 4_000_000)],
            rule: "Random documents finished with every combination of size prefix and file identifier: root found, prefix equal to the remaining length, identifier recognised and others not, truncated buffers give errors; non-trivial = prefix or identifier present; distinct = by finished bytes.",
            assumptions: &["File identifiers are four bytes of UTF-8, as the format demands."],
        },
    ]
}

fn fail<T>(m: impl Into<String>) -> Result<T, String> {
    let mut m = m.into();
    if m.len() > 4000 {
        m = m.chars().take(1000).collect::<String>() + " ...";
    }
    Err(m)
}

struct Made {
    doc: Doc,
    plan: Plan,
    header: Header,
    minimal: bool,
    cap: usize,
}

fn gen_made(src: &mut Src, cfg: &DocCfg) -> Made {
    let header = gen_header(src);
    let minimal = src.flag();
    let cap = gen_capacity(src);
    let plan = Plan::gen(src);
    let doc = gen_doc(src, cfg);
    Made {
        doc,
        plan,
        header,
        minimal,
        cap,
    }
}

impl Made {
    fn bytes(&self, fbb: &mut Fbb) -> Vec<u32> {
        let offs = build(fbb, &self.doc, &self.plan);
        finish(fbb, offs[self.doc.root], &self.header, self.minimal);
        offs
    }
    fn fresh(&self) -> Fbb {
        FlatBufferBuilder::new_with_capacity(self.cap)
    }
    fn show(&self) -> String {
        format!(
            "capacity {}, plan {:#x}, {:?}, minimal {}: {}",
            self.cap,
            self.plan.0,
            self.header,
            self.minimal,
            self.doc.show()
        )
    }
}

fn root_of<B: AsRef<[u8]>>(b: B, h: &Header) -> Result<Table<B>, String> {
    let r = if h.prefixed {
        get_size_prefixed_root::<Table<B>, B>(b)
    } else {
        get_root::<Table<B>, B>(b)
    };
    r.map_err(|e| format!("no root: {}", e))
}

fn reached(doc: &Doc) -> usize {
    doc.reachable().iter().filter(|x| **x).count()
}

fn compare(want: &Out, got: &Out) -> Result<(), String> {
    if agrees(want, got) {
        Ok(())
    } else {
        fail(format!("read {:?} instead of {:?}", got, want))
    }
}

// ------------------------------------------------------------------ C01

fn round_trip(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let m = gen_made(src, &DocCfg::default());
    ctx.describe(|| m.show());
    check_round_trip(m, src, ctx)
}

fn check_round_trip(m: Made, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let shape = shape_of(&m.doc, m.doc.root, src);
    let slots = match &shape {
        Shape::Tab(s) => s,
        _ => unreachable!(),
    };
    let mut fbb = m.fresh();
    m.bytes(&mut fbb);
    let want = expected(&m.doc, m.doc.root, &shape, true);
    let loose = expected(&m.doc, m.doc.root, &shape, false);
    if fbb.finished_data() != fbb.unfinished_data() {
        return fail("finished_data and unfinished_data differ");
    }
    // in place
    let t = root_of(fbb.finished_data(), &m.header)?;
    compare(&loose, &table(&t, slots, 0, false))?;
    // copied to aligned memory
    let data = fbb.finished_data().to_vec();
    let got = with_guarded(&data, false, 0, |b| root_of(b, &m.header).map(|t| table(&t, slots, 0, false)))?;
    compare(&want, &got)?;
    // owned, through collapse
    let (owned, head) = fbb.collapse();
    if owned.get(head..) != Some(&data[..]) {
        return fail("collapse does not return the finished bytes");
    }
    let t = if m.header.prefixed {
        Table::get_size_prefixed_root(data.clone())
    } else {
        Table::get_root(data.clone())
    }
    .map_err(|e| e.to_string())?;
    compare(&loose, &table(&t, slots, 0, false))?;
    let n = reached(&m.doc);
    ctx.label_if(n > 10, "more than ten objects");
    ctx.label_if(data.len() > 1000, "over 1000 bytes");
    ctx.label_if(data.len() > 65536, "over 64 KiB");
    if n > 2 {
        ctx.nontrivial_bytes(&data);
    }
    Ok(())
}

/// Documents that are large in one respect: a long leaf, many tables, a long
/// chain of tables, a wide table, a long vector of strings.
fn gen_large_doc(src: &mut Src) -> Doc {
    let mut doc = gen_doc(
        src,
        &DocCfg {
            max_objs: 6,
            ..DocCfg::default()
        },
    );
    let seed = src.draw(0);
    let r = |a: u64, b: u64| mix(mix(seed, a), b);
    let scalar = |i: u64, j: u64| {
        let sc = SCALARS[(r(i, 3 * j) % SCALARS.len() as u64) as usize];
        FieldVal::Sc {
            sc,
            bits: sc.norm(r(i, 3 * j + 1)),
            default: if r(i, 3 * j + 2) % 3 == 0 { Some(0) } else { None },
        }
    };
    let old_root = doc.root;
    let top = match src.below(5) {
        0 => {
            let big = src.range(1 << 10, 200_000) as u64;
            doc.objs.push(match src.below(3) {
                0 => {
                    let sc = *src.pick(&SCALARS);
                    let n = if src.flag() { big / 8 } else { (1 << 16) - 4 + src.draw(9) };
                    Obj::Vec(sc, (0..n).map(|i| sc.norm(r(0, i))).collect())
                }
                1 => Obj::Str((0..big).map(|i| (b'a' + (r(0, i) % 26) as u8) as char).collect()),
                _ => Obj::Bytes((0..big).map(|i| r(0, i) as u8).collect()),
            });
            doc.objs.len() - 1
        }
        1 => {
            // many tables, of many layouts
            let n = src.range(100, 1500) as u64;
            let layouts = 1 + src.draw(n);
            let mut all = Vec::new();
            for i in 0..n {
                let l = r(1, i) % layouts;
                let mut fs = Vec::new();
                for slot in 0..10u16 {
                    if r(l, slot as u64) % 2 == 0 {
                        let mut val = scalar(l, slot as u64);
                        if let FieldVal::Sc { sc, bits, .. } = &mut val {
                            *bits = sc.norm(r(i, slot as u64));
                        }
                        fs.push(Field { slot, val });
                    }
                }
                if r(i, 77) % 4 == 0 {
                    doc.objs.push(Obj::Str(format!("{}", r(i, 78) % 1000)));
                    fs.push(Field {
                        slot: 10,
                        val: FieldVal::Ref(doc.objs.len() - 1),
                    });
                }
                doc.objs.push(Obj::Tab(fs));
                all.push(doc.objs.len() - 1);
            }
            doc.objs.push(Obj::Refs(all));
            doc.objs.len() - 1
        }
        2 => {
            // a chain, directly or through vectors
            let n = src.range(20, 250) as u64;
            let mut at = old_root;
            for i in 0..n {
                if r(2, i) % 8 == 0 {
                    doc.objs.push(Obj::Refs(vec![at]));
                    at = doc.objs.len() - 1;
                }
                let mut fs = vec![Field {
                    slot: (r(3, i) % 5) as u16,
                    val: FieldVal::Ref(at),
                }];
                if r(4, i) % 2 == 0 {
                    fs.push(Field {
                        slot: 5,
                        val: scalar(i, 0),
                    });
                }
                doc.objs.push(Obj::Tab(fs));
                at = doc.objs.len() - 1;
            }
            at
        }
        3 => {
            let n = src.range(100, 3000) as u64;
            let dense = src.flag();
            let mut fs = Vec::new();
            if src.chance(1, 4) {
                // nearly as long as a table can be
                let m = src.range(4000, 8170) as u64;
                for i in n..n + m {
                    let bits = r(8, i);
                    fs.push(Field {
                        slot: i as u16,
                        val: FieldVal::Sc { sc: Sc::U64, bits, default: None },
                    });
                }
            }
            let n = if fs.is_empty() { n } else { src.draw(4) };
            for i in 0..n {
                if dense || r(5, i) % 3 == 0 {
                    fs.push(Field {
                        slot: i as u16,
                        val: scalar(i, 0),
                    });
                }
            }
            doc.objs.push(Obj::Tab(fs));
            doc.objs.len() - 1
        }
        _ => {
            let n = src.range(17, 2000) as u64;
            let mut all = Vec::new();
            for i in 0..n {
                doc.objs.push(Obj::Str("\u{e9}x".repeat((r(6, i) % 9) as usize)));
                all.push(doc.objs.len() - 1);
            }
            if src.chance(1, 8) {
                // the same ones again, more often than 16 bits can count
                let few = all.clone();
                let more = (1 << 16) - 4 + src.below(9);
                for i in all.len()..more {
                    all.push(few[r(7, i as u64) as usize % few.len()]);
                }
            }
            doc.objs.push(Obj::Refs(all));
            doc.objs.len() - 1
        }
    };
    let slot = src.below(40) as u16;
    doc.objs.push(Obj::Tab(vec![
        Field {
            slot,
            val: FieldVal::Ref(top),
        },
        Field {
            slot: slot + 1,
            val: FieldVal::Ref(old_root),
        },
        Field {
            slot: slot + 2,
            val: FieldVal::Ref(top),
        },
    ]));
    doc.root = doc.objs.len() - 1;
    doc
}

fn gen_large(src: &mut Src) -> Made {
    let mut m = gen_made(
        src,
        &DocCfg {
            max_objs: 1,
            ..DocCfg::default()
        },
    );
    m.doc = gen_large_doc(src);
    m
}

fn round_trip_large(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let m = gen_large(src);
    ctx.describe(|| m.show());
    check_round_trip(m, src, ctx)
}

// ------------------------------------------------------------------ C02, C03

fn strict<'a>(m: &Made, data: &'a [u8]) -> Result<Strict<'a>, String> {
    let mut s = Strict::new(data);
    let root = s.header(&m.header)?;
    s.object(&m.doc, m.doc.root, root)?;
    Ok(s)
}

fn conformance(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let m = gen_made(src, &DocCfg::default());
    check_conformance(m, ctx)
}

fn conformance_large(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let m = gen_large(src);
    check_conformance(m, ctx)
}

fn check_conformance(m: Made, ctx: &mut Ctx) -> Result<(), String> {
    ctx.describe(|| m.show());
    let mut fbb = m.fresh();
    m.bytes(&mut fbb);
    let data = fbb.finished_data();
    let s = strict(&m, data)?;
    s.regions.check_overlaps(data.len())?;
    // what is left between the objects of a fully reachable document is padding
    let n = reached(&m.doc);
    let scalar = m.doc.objs.iter().any(
        |o| matches!(o, Obj::Tab(fs) if fs.iter().any(|f| f.stored() && matches!(f.val, FieldVal::Sc{..}))),
    );
    if n > 1 && scalar {
        ctx.nontrivial_bytes(data);
    }
    ctx.label_if(m.header.prefixed, "size prefix");
    ctx.label_if(m.header.ident.is_some(), "identifier");
    ctx.label_if(s.regions.tables.len() > 3, "more than three tables");
    Ok(())
}

fn alignment(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let m = gen_made(src, &DocCfg::default());
    check_alignment(m, ctx)
}

fn alignment_large(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let m = gen_large(src);
    check_alignment(m, ctx)
}

fn check_alignment(m: Made, ctx: &mut Ctx) -> Result<(), String> {
    ctx.describe(|| m.show());
    let mut fbb = m.fresh();
    m.bytes(&mut fbb);
    let data = fbb.finished_data();
    let s = strict(&m, data).or_else(|_| lenient_strict(&m, data))?;
    s.regions.check_alignment()?;
    if s.regions.aligned.iter().any(|(_, a, _)| *a == 8) {
        ctx.nontrivial_bytes(data);
    }
    ctx.label_if(
        s.regions.aligned.iter().any(|(_, a, w)| *a == 8 && *w == "vector elements"),
        "8-byte vector",
    );
    ctx.label_if(
        s.regions.aligned.iter().any(|(_, a, w)| *a == 8 && *w == "scalar field"),
        "8-byte field",
    );
    Ok(())
}

// A buffer whose contents are wrong is another property's business, as long
// as the walk gets through; here only what was reached before the first
// problem is judged.
fn lenient_strict<'a>(m: &Made, data: &'a [u8]) -> Result<Strict<'a>, String> {
    let mut s = Strict::new(data);
    if let Ok(root) = s.header(&m.header) {
        let _ = s.object(&m.doc, m.doc.root, root);
    }
    Ok(s)
}

// ------------------------------------------------------------------ C04

fn foreign(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let doc = gen_doc(src, &DocCfg::default());
    check_foreign(doc, src, ctx)
}

fn foreign_large(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let doc = gen_large_doc(src);
    check_foreign(doc, src, ctx)
}

fn check_foreign(doc: Doc, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let header = gen_header(src);
    let enc = encode(&doc, src, header.clone());
    let shape = shape_of(&doc, doc.root, src);
    let slots = match &shape {
        Shape::Tab(s) => s.clone(),
        _ => unreachable!(),
    };
    let at_end = src.flag();
    let shift = src.below(16);
    let buffer = src.below(4);
    ctx.describe(|| {
        format!(
            "{:?} at_end {} shift {}: {} | {}",
            header,
            at_end,
            shift,
            doc.show(),
            show_bytes(&enc.bytes)
        )
    });
    let (want, got) = with_guarded(&enc.bytes, at_end, shift, |b| {
        let rr = RefReader { buf: b, few: false };
        let want = rr.object(enc.root_pos, &shape, 0);
        let got = root_of(b, &header).map(|t| table(&t, &slots, 0, false));
        (want, got)
    });
    let loose = expected(&doc, doc.root, &shape, false);
    let got = got?;
    // the model against itself, then the code against the model
    assert!(agrees(&loose, &want), "model: {:?} {:?}", loose, want);
    compare(&want, &got)?;
    compare(&loose, &got)?;
    // other kinds of buffer
    let got = match buffer {
        0 => root_of(enc.bytes.clone(), &header).map(|t| table(&t, &slots, 0, false)),
        1 => root_of(enc.bytes.clone().into_boxed_slice(), &header).map(|t| table(&t, &slots, 0, false)),
        2 => root_of(std::sync::Arc::<[u8]>::from(&enc.bytes[..]), &header)
            .map(|t| table(&t, &slots, 0, false)),
        _ => root_of(std::borrow::Cow::Borrowed(&enc.bytes[..]), &header)
            .map(|t| table(&t, &slots, 0, false)),
    }?;
    compare(&loose, &got)?;
    if reached(&doc) > 2 {
        ctx.nontrivial_bytes(&enc.bytes);
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

fn gen_shape(src: &mut Src, depth: usize, table: bool) -> Shape {
    let k = if table { 5 } else { src.weighted(&[3, 3, 2, 2, 0, if depth < 3 { 4 } else { 0 }, if depth < 3 { 3 } else { 0 }]) };
    match k {
        0 => {
            let sc = *src.pick(&SCALARS);
            let d = if src.flag() { Some(sc.gen(src)) } else { None };
            Shape::Sc(sc, d)
        }
        1 => Shape::Str,
        2 => {
            Shape::Slice(*src.pick(&SCALARS))
        }
        3 => Shape::Vec(*src.pick(&SCALARS), src.draw(4) as u8),
        6 => {
            let inner = loop {
                let s = gen_shape(src, depth + 1, false);
                if !matches!(s, Shape::Sc(..)) {
                    break s;
                }
                if src.exhausted() {
                    break Shape::Str;
                }
            };
            Shape::Refs(Box::new(inner), src.draw(4) as u8)
        }
        _ => {
            let mut fs = Vec::new();
            while fs.len() < 8 && src.more(4) {
                let slot = match src.weighted(&[8, 2, 1]) {
                    0 => src.draw(8),
                    1 => src.draw(300),
                    _ => src.draw(32766),
                } as u16;
                fs.push((slot, gen_shape(src, depth + 1, false)));
            }
            Shape::Tab(fs)
        }
    }
}

/// The document's own shape, made uniform so that any length can be read.
fn loosen(sh: &Shape) -> Shape {
    match sh {
        Shape::Each(each, how) => match each.first() {
            Some(s) => Shape::Refs(Box::new(loosen(s)), *how),
            None => Shape::Refs(Box::new(Shape::Str), *how),
        },
        Shape::Tab(fs) => Shape::Tab(fs.iter().take(12).map(|(s, f)| (*s, loosen(f))).collect()),
        s => s.clone(),
    }
}

fn count(o: &Out, vals: &mut usize, errs: &mut usize) {
    match o {
        Out::Err(_) => *errs += 1,
        Out::Absent => {}
        Out::OrErr(..) => {}
        Out::Vec(_, v) => v.iter().for_each(|x| count(x, vals, errs)),
        Out::Tab(v) => v.iter().for_each(|x| count(x, vals, errs)),
        _ => *vals += 1,
    }
}

fn check_untrusted(
    bytes: &[u8],
    shape: &Shape,
    prefixed: bool,
    at_end: bool,
    shift: usize,
    ctx: &mut Ctx,
) -> Result<(), String> {
    let slots = match shape {
        Shape::Tab(s) => s,
        _ => unreachable!(),
    };
    let h = Header {
        prefixed,
        ident: None,
    };
    let (want, got) = with_guarded(bytes, at_end, shift, |b| {
        let rr = RefReader { buf: b, few: true };
        let want = match rr.uoffset(if prefixed { 4 } else { 0 }) {
            Err(e) => Out::Err(e),
            Ok(p) => rr.object(p, shape, 0),
        };
        let r = if prefixed {
            get_size_prefixed_root::<Table<&[u8]>, &[u8]>(b)
        } else {
            get_root::<Table<&[u8]>, &[u8]>(b)
        };
        let got = match r {
            Err(e) => err(e),
            Ok(t) => table(&t, slots, 0, true),
        };
        (want, got)
    });
    let _ = h;
    compare(&want, &got)?;
    let (mut v, mut e) = (0, 0);
    count(&want, &mut v, &mut e);
    ctx.label_if(e > 0 && v > 0, "values and errors");
    ctx.label_if(e > 0 && v == 0, "errors only");
    ctx.label_if(matches!(want, Out::Err(_)), "no root");
    ctx.label_if(e == 0 && v > 0, "values only");
    ctx.label_if(e == 0 && v == 0, "nothing there");
    if e > 0 && !matches!(want, Out::Err(_)) {
        ctx.nontrivial(mix(hash_bytes(bytes), hash_bytes(format!("{:?}", shape).as_bytes())));
    }
    Ok(())
}

fn untrusted_mutated(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = DocCfg {
        max_objs: 12,
        big_slots: false,
        max_vec: 60,
    };
    let doc = gen_doc(src, &cfg);
    let header = gen_header(src);
    let mut enc = encode(&doc, src, header.clone());
    let shape = shape_of(&doc, doc.root, src);
    let shape = if src.chance(1, 8) {
        gen_shape(src, 0, true)
    } else {
        loosen(&shape)
    };
    let n = enc.bytes.len();
    let what = damage(&mut enc, src);
    let at_end = !src.chance(1, 4);
    let shift = src.below(8);
    ctx.describe(|| {
        format!(
            "{:?} {:?} of a {}-byte buffer, at_end {} shift {}: {} | {:?}",
            what,
            header,
            n,
            at_end,
            shift,
            show_bytes(&enc.bytes),
            shape
        )
    });
    check_untrusted(&enc.bytes, &shape, header.prefixed, at_end, shift, ctx)
}

/// As above, with one large part that may be damaged anywhere.
fn untrusted_large(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let doc = gen_large_doc(src);
    let header = gen_header(src);
    let mut enc = encode(&doc, src, header.clone());
    let shape = loosen(&shape_of(&doc, doc.root, src));
    let n = enc.bytes.len();
    let what = if src.flag() { format!("{:?}", damage(&mut enc, src)) } else { String::new() };
    for _ in 0..src.below(4) {
        let at = src.below(enc.bytes.len().max(1));
        let x = *src.pick(&[0xff, 0x80, 0, 2]);
        if let Some(b) = enc.bytes.get_mut(at) {
            *b = x;
        }
    }
    ctx.describe(|| format!("{} {:?} of a {}-byte buffer, {:?}", what, header, n, shape));
    check_untrusted(&enc.bytes, &shape, header.prefixed, true, 0, ctx)
}

fn untrusted_random(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = src.range(0, 120);
    let mode = src.below(3);
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(match mode {
            0 => src.draw(16) as u8,
            1 => *src.pick(&[0u8, 0, 0, 1, 4, 8, 12, 0xff, 0x80]),
            _ => src.draw(256) as u8,
        });
    }
    // a root offset that leads somewhere
    if n >= 4 && src.chance(3, 4) {
        let v = src.draw(n as u64) as u32;
        b[..4].copy_from_slice(&v.to_le_bytes());
        // and a vtable offset, too
        let v = v as usize;
        if v + 4 <= n && v >= 4 && src.chance(3, 4) {
            let s = (v as i64 - src.draw(n as u64) as i64) as i32;
            b[v..v + 4].copy_from_slice(&s.to_le_bytes());
        }
    }
    let shape = gen_shape(src, 0, true);
    let prefixed = src.chance(1, 5);
    let at_end = !src.chance(1, 4);
    let shift = src.below(8);
    ctx.describe(|| format!("prefixed {}: {} | {:?}", prefixed, show_bytes(&b), shape));
    check_untrusted(&b, &shape, prefixed, at_end, shift, ctx)
}

/// The building blocks of the readers, in any combination, at any place.
fn untrusted_follow(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    fn one<'a, T: Follow<'a> + 'a>(s: usize, b: &'a [u8], loc: usize) -> Result<T::Inner, Error> {
        match s {
            0 => SkipSizePrefix::<T>::follow(b, loc),
            1 => SkipRootOffset::<T>::follow(b, loc),
            2 => SkipFileIdentifier::<T>::follow(b, loc),
            3 => ForwardsUOffset::<T>::follow(b, loc),
            4 => ForwardsVOffset::<T>::follow(b, loc),
            5 => BackwardsSOffset::<T>::follow(b, loc),
            _ => FollowStart::<T>::follow(b, loc),
        }
    }
    fn chain<'a, T: Follow<'a> + 'a>(s: &[usize], b: &'a [u8], loc: usize) -> Result<T::Inner, Error> {
        match *s {
            [] => T::follow(b, loc),
            [s] => one::<T>(s, b, loc),
            [s, 0] => one::<SkipSizePrefix<T>>(s, b, loc),
            [s, 1] => one::<SkipRootOffset<T>>(s, b, loc),
            [s, 2] => one::<SkipFileIdentifier<T>>(s, b, loc),
            [s, 3] => one::<ForwardsUOffset<T>>(s, b, loc),
            [s, 4] => one::<ForwardsVOffset<T>>(s, b, loc),
            [s, 5] => one::<BackwardsSOffset<T>>(s, b, loc),
            [s, _] => one::<FollowStart<T>>(s, b, loc),
            _ => unreachable!(),
        }
    }
    let n = src.range(0, 80);
    let mut b: Vec<u8> = (0..n)
        .map(|_| *src.pick(&[0u8, 0, 0, 0, 1, 2, 4, 8, 12, 20, b'x', 0xff, 0x80]))
        .collect();
    let loc = src.below(n + 8);
    let steps: Vec<usize> = (0..src.below(3)).map(|_| src.below(7)).collect();
    let kind = src.below(8);
    // make the offsets lead somewhere, mostly
    let mut at = loc;
    let mut target = Ok(());
    let mut moved = false;
    for s in &steps {
        let w = if *s == 4 { 2 } else { 4 };
        if matches!(s, 3..=5) && at + w <= n && src.chance(3, 4) {
            let to = src.below(n + 2);
            let v = if *s == 5 { at as i64 - to as i64 } else { to as i64 - at as i64 };
            if *s == 5 || v >= 0 {
                b[at..at + w].copy_from_slice(&(v as u32).to_le_bytes()[..w]);
            }
        }
        let rr = RefReader { buf: &b, few: true };
        let next = match s {
            0..=2 => Ok(at + 4),
            3 => rr.uoffset(at),
            4 => rr.rd(at, 2).map(|x| at + x as usize),
            5 => rr.vtable(at),
            _ => Ok(at),
        };
        match next {
            Ok(x) => {
                moved |= *s < 6 && x != at;
                at = x
            }
            Err(e) => {
                target = Err(e);
                break;
            }
        }
    }
    // an offset written later may have changed what an earlier one reads
    let rr = RefReader { buf: &b, few: true };
    if target.is_ok() {
        at = loc;
        for s in &steps {
            let next = match s {
                0..=2 => Ok(at + 4),
                3 => rr.uoffset(at),
                4 => rr.rd(at, 2).map(|x| at + x as usize),
                5 => rr.vtable(at),
                _ => Ok(at),
            };
            match next {
                Ok(x) => at = x,
                Err(e) => {
                    target = Err(e);
                    break;
                }
            }
        }
    }
    let at_end = !src.chance(1, 4);
    ctx.describe(|| format!("steps {:?} at {}, then {}, in {}", steps, loc, kind, show_bytes(&b)));
    let (want, got) = with_guarded(&b, at_end, 0, |b| {
        let rr = RefReader { buf: b, few: true };
        let to = |r: Result<u64, Error>| r.map_or_else(err, Out::Sc);
        let bytes = |r: Result<&[u8], Error>| r.map_or_else(err, |s| Out::Slice(s.iter().map(|x| *x as u64).collect()));
        let read = |n: usize| {
            if at + n <= b.len() {
                Out::Slice(b[at..at + n].iter().map(|x| *x as u64).collect())
            } else {
                Out::Err(E_OOB)
            }
        };
        let elems = |v: Vector<u16>| match v.len() {
            Err(e) => err(e),
            Ok(n) => Out::Vec(n, (0..n.min(3)).map(|i| to(v.get(i).map(|x| x as u64))).collect()),
        };
        let mut want = match (target, kind) {
            (Err(e), _) => Out::Err(e),
            (_, 0) => rr.object(at, &Shape::Sc(Sc::U64, None), 0),
            (_, 1) => rr.object(at, &Shape::Str, 0),
            (_, 2) => rr.object(at, &Shape::Slice(Sc::U8), 0),
            (_, 3) => rr.object(at, &Shape::Slice(Sc::I16), 0),
            (_, 4) => read(4),
            (_, 5) => rr.object(at, &Shape::Sc(Sc::Bool, None), 0),
            (_, 6) => rr.object(at, &Shape::Vec(Sc::U16, 0), 0),
            _ => read(7),
        };
        if let Out::Vec(_, v) = &mut want {
            v.truncate(3);
        }
        let got = match kind {
            0 => to(chain::<u64>(&steps, b, loc)),
            1 => chain::<&str>(&steps, b, loc).map_or_else(err, |s| Out::Str(s.to_string())),
            2 => bytes(chain::<&[u8]>(&steps, b, loc)),
            3 => chain::<&[i16]>(&steps, b, loc)
                .map_or_else(err, |s| Out::Slice(s.iter().map(|x| *x as u16 as u64).collect())),
            4 => bytes(chain::<FileIdentifier>(&steps, b, loc)),
            5 => to(chain::<bool>(&steps, b, loc).map(|x| x as u64)),
            6 => chain::<Vector<u16>>(&steps, b, loc).map_or_else(err, elems),
            _ => match target {
                Err(e) => Out::Err(e),
                // any bytes are such an array, of alignment 1
                Ok(()) => unsafe { follow_cast_ref::<[u8; 7]>(b, at) }
                    .map_or_else(err, |s| Out::Slice(s.iter().map(|x| *x as u64).collect())),
            },
        };
        (want, got)
    });
    compare(&want, &got)?;
    // the same through a buffer that is handed over
    let slots = [(0u16, Shape::Sc(Sc::U16, None)), (1, Shape::Str)];
    type T<'a> = Table<&'a [u8]>;
    let (want, got) = with_guarded(&b, at_end, 0, |b| {
        let rr = RefReader { buf: b, few: true };
        let (place, t) = match kind {
            0 | 1 => (Ok(loc), T::follow_buf(b, loc)),
            2 | 3 => (rr.uoffset(loc), ForwardsUOffset::<T>::follow_buf(b, loc)),
            4 => (Ok(loc + 4), SkipSizePrefix::<T>::follow_buf(b, loc)),
            5 => (rr.uoffset(loc + 4), SkipSizePrefix::<ForwardsUOffset<T>>::follow_buf(b, loc)),
            _ => (
                rr.uoffset(loc).and_then(|p| rr.uoffset(p)),
                ForwardsUOffset::<ForwardsUOffset<T>>::follow_buf(b, loc),
            ),
        };
        (
            place.map_or_else(Out::Err, |p| rr.object(p, &Shape::Tab(slots.to_vec()), 0)),
            t.map_or_else(err, |t| table(&t, &slots, 0, true)),
        )
    });
    compare(&want, &got)?;
    ctx.label_if(target.is_err(), "no target");
    ctx.label_if(matches!(got, Out::Tab(_)), "a table");
    if moved && target.is_ok() {
        ctx.nontrivial(mix(hash_bytes(&b), (loc * 1000 + kind * 100 + steps.iter().fold(0, |a, s| 8 * a + s + 1)) as u64));
    }
    Ok(())
}

fn untrusted_vtable(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = src.range(0, 60);
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(*src.pick(&[0u8, 0, 4, 6, 8, 1, 2, 3, 5, 12, 30, 0xff, 0x80]));
    }
    let loc = if src.chance(9, 10) { src.below(n + 2) } else { src.draw(1 << 33) as usize };
    if loc + 4 <= n && src.chance(4, 5) {
        let s = (loc as i64 - src.draw(n as u64 + 4) as i64) as i32;
        b[loc..loc + 4].copy_from_slice(&s.to_le_bytes());
    }
    let idx: Vec<usize> = (0..4).map(|_| if src.chance(9, 10) { src.below(20) } else { src.draw(1 << 20) as usize }).collect();
    let at_end = !src.chance(1, 4);
    ctx.describe(|| format!("table at {} in {}; fields {:?}", loc, show_bytes(&b), idx));
    with_guarded(&b, at_end, 0, |b| {
        let rr = RefReader { buf: b, few: true };
        let t = Table::new(b, loc);
        let want = rr.vtable(loc);
        let vt = match (want, t.vtable()) {
            (Err(e), Err(g)) if e & mask(g) != 0 => return Ok(()),
            (Ok(_), Ok(v)) => v,
            (w, g) => return fail(format!("vtable: {:?} instead of {:?}", g.map(|_| ()), w)),
        };
        let at = want.unwrap();
        let same = |what: &str, w: Result<u64, u16>, g: Result<u64, Error>| match (w, g) {
            (Ok(a), Ok(b)) if a == b => Ok(()),
            (Err(a), Err(b)) if a & mask(b) != 0 => Ok(()),
            (w, g) => fail(format!("{}: {:?} instead of {:?}", what, g, w)),
        };
        let nb = rr.rd(at, 2);
        same("num_bytes", nb, vt.num_bytes().map(|x| x as u64))?;
        same(
            "object_inline_num_bytes",
            rr.rd(at + 2, 2),
            vt.object_inline_num_bytes().map(|x| x as u64),
        )?;
        let nf = nb.map(|n| (n / 2).saturating_sub(2));
        same("num_fields", nf, vt.num_fields().map(|x| x as u64))?;
        for &i in &idx {
            let w = match nf {
                Err(e) => Err(e),
                Ok(k) if i as u64 >= k => Ok(None),
                Ok(_) => rr.rd(at + 4 + 2 * i, 2).map(Some),
            };
            let g = vt.get_field(i);
            match (w, g) {
                (Ok(a), Ok(b)) if a == b.map(|x| x as u64) => {}
                (Err(a), Err(b)) if a & mask(b) != 0 => {}
                (w, g) => return fail(format!("get_field({}): {:?} instead of {:?}", i, g, w)),
            }
            let off = (i & 0xffff) as u16;
            let w = match nb {
                Err(e) => Err(e),
                Ok(k) if off as u64 >= k => Ok(None),
                Ok(_) => rr.rd(at + off as usize, 2).map(Some),
            };
            match (w, vt.get(off)) {
                (Ok(a), Ok(b)) if a == b.map(|x| x as u64) => {}
                (Err(a), Err(b)) if a & mask(b) != 0 => {}
                (w, g) => return fail(format!("get({}): {:?} instead of {:?}", off, g, w)),
            }
        }
        match (nb, vt.as_bytes()) {
            (Ok(k), Ok(g)) if b.get(at..at + k as usize) == Some(g) => {}
            (Ok(k), Err(Error::OutOfBounds)) if at + k as usize > b.len() => {}
            (Err(_), Err(Error::OutOfBounds)) => {}
            (w, g) => return fail(format!("as_bytes: {:?} for {:?}", g, w)),
        }
        ctx.label_if(nb.is_ok(), "readable vtable");
        ctx.label_if(matches!(nb, Ok(k) if at + k as usize > b.len()), "vtable leaves the buffer");
        if nb.is_ok() {
            ctx.nontrivial(mix(hash_bytes(b), loc as u64));
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C06

/// Build a prefix of the document, possibly stopping inside a table or vector.
fn abandon(fbb: &mut Fbb, doc: &Doc, plan: &Plan, at: usize, inside: usize) {
    let mut offs = Vec::new();
    for id in 0..doc.objs.len() {
        if id == at {
            match &doc.objs[id] {
                Obj::Tab(fs) => {
                    let _ = fbb.start_table();
                    for f in fs.iter().take(inside) {
                        push_field(fbb, f, &offs);
                    }
                }
                Obj::Vec(sc, v) => with_sc!(*sc, T => {
                    fbb.start_vector::<T>(v.len());
                    for b in v.iter().take(inside) {
                        fbb.push::<T>(T::of(*b));
                    }
                }),
                _ => {}
            }
            return;
        }
        let o = build_obj(fbb, doc, id, &offs, plan);
        offs.push(o);
    }
}

fn history(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    check_history(src, ctx, false)
}

fn history_large(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    check_history(src, ctx, true)
}

fn check_history(src: &mut Src, ctx: &mut Ctx, large: bool) -> Result<(), String> {
    let cfg = DocCfg {
        max_objs: 15,
        big_slots: false,
        max_vec: 100,
    };
    let any = |src: &mut Src| {
        if large && src.flag() {
            gen_large(src)
        } else {
            gen_made(src, &cfg)
        }
    };
    let m = any(src);
    let mut fresh = FlatBufferBuilder::new();
    m.bytes(&mut fresh);
    let mut fbb = m.fresh();
    let rounds = 1 + src.below(3);
    let mut story = Vec::new();
    let mut wrote = false;
    for _ in 0..rounds {
        let old = any(src);
        wrote |= old.doc.objs.len() > 1;
        if src.flag() {
            old.bytes(&mut fbb);
            story.push(format!("finished {}", old.show()));
        } else {
            let at = src.below(old.doc.objs.len() + 1);
            let inside = src.below(6);
            abandon(&mut fbb, &old.doc, &old.plan, at, inside);
            story.push(format!("abandoned at object {} after {}: {}", at, inside, old.show()));
        }
        if !large && src.chance(1, 4) {
            // what there is can be taken out at any point
            let data = fbb.unfinished_data().to_vec();
            let (all, head) = fbb.clone().collapse();
            if all.get(head..) != Some(&data[..]) {
                return fail("collapse does not return what was written so far");
            }
        }
        fbb.reset();
        if !fbb.unfinished_data().is_empty() {
            return fail("data left after reset");
        }
        if fbb.num_written_vtables() != 0 {
            return fail("vtables left after reset");
        }
    }
    ctx.describe(|| format!("{} | history: {:?}", m.show(), story));
    // what is there while building must be as in a fresh builder, too
    let clone_at = src.below(m.doc.objs.len() + 1);
    let mut plain = m.fresh();
    let mut offs = Vec::new();
    let mut cloned: Option<(Fbb, Vec<u32>)> = None;
    for id in 0..m.doc.objs.len() {
        if id == clone_at {
            cloned = Some((fbb.clone(), offs.clone()));
        }
        let a = build_obj(&mut fbb, &m.doc, id, &offs, &m.plan);
        let b = build_obj(&mut plain, &m.doc, id, &offs, &m.plan);
        if a != b || ((!large || id % 16 == 0) && fbb.unfinished_data() != plain.unfinished_data()) {
            return fail(format!("object {} differs after reset", id));
        }
        if fbb.num_written_vtables() != plain.num_written_vtables() {
            return fail(format!("vtables differ after reset at object {}", id));
        }
        offs.push(a);
    }
    finish(&mut fbb, offs[m.doc.root], &m.header, m.minimal);
    if fbb.finished_data() != fresh.finished_data() {
        return fail(format!(
            "after reset {} instead of {}",
            show_bytes(fbb.finished_data()),
            show_bytes(fresh.finished_data())
        ));
    }
    // a clone taken on the way does not notice what happened to the original
    if let Some((mut c, mut offs)) = cloned {
        for id in offs.len()..m.doc.objs.len() {
            let o = build_obj(&mut c, &m.doc, id, &offs, &m.plan);
            offs.push(o);
        }
        finish(&mut c, offs[m.doc.root], &m.header, m.minimal);
        if c.finished_data() != fresh.finished_data() {
            return fail("a clone built something else");
        }
    }
    if wrote {
        ctx.nontrivial(mix(hash_bytes(fbb.finished_data()), hash_bytes(format!("{:?}", story).as_bytes())));
    }
    ctx.label_if(story.iter().any(|s| s.starts_with("abandoned")), "abandoned build");
    Ok(())
}

fn capacity(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let m = gen_made(
        src,
        &DocCfg {
            max_objs: 25,
            ..DocCfg::default()
        },
    );
    check_capacity(m, src, ctx)
}

fn capacity_large(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let m = gen_large(src);
    check_capacity(m, src, ctx)
}

fn check_capacity(m: Made, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let other = gen_capacity(src);
    ctx.describe(|| format!("capacity {} against {}", other, m.show()));
    let mut a = m.fresh();
    m.bytes(&mut a);
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(other);
    m.bytes(&mut b);
    if a.finished_data() != b.finished_data() {
        return fail(format!(
            "capacity {} gives {}, capacity {} gives {}",
            m.cap,
            show_bytes(a.finished_data()),
            other,
            show_bytes(b.finished_data())
        ));
    }
    let mut c: Fbb = if src.flag() { FlatBufferBuilder::new() } else { FlatBufferBuilder::default() };
    m.bytes(&mut c);
    if a.finished_data() != c.finished_data() {
        return fail("a default builder gives something else");
    }
    // padding between the objects is zero: nothing but the document is in there
    let s = strict(&m, a.finished_data());
    if let Ok(s) = s {
        if m.doc.reachable().iter().all(|x| *x) && !has_shared_strings(&m) {
            let data = a.finished_data();
            let mut at = 0;
            for (p, (n, _)) in &s.regions.map {
                if data[at.min(*p)..*p].iter().any(|x| *x != 0) {
                    return fail(format!("bytes {}..{} are neither data nor zero", at, p));
                }
                at = (*p + *n).max(at);
            }
            if data[at.min(data.len())..].iter().any(|x| *x != 0) {
                return fail("bytes after the last object are neither data nor zero");
            }
            ctx.label("padding checked");
        }
    }
    if other != m.cap && a.finished_data().len() > other.min(m.cap) {
        ctx.nontrivial_bytes(a.finished_data());
    }
    Ok(())
}

// create_vector_of_strings writes strings of its own: the document's are then unreachable
fn has_shared_strings(m: &Made) -> bool {
    m.doc.objs.iter().any(|o| match o {
        Obj::Refs(v) => v.iter().all(|j| matches!(m.doc.objs[*j], Obj::Str(_))) && !v.is_empty(),
        _ => false,
    })
}

// ------------------------------------------------------------------ C07

fn dedup(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    check_dedup(src, ctx, false)
}

fn dedup_many(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    check_dedup(src, ctx, true)
}

fn check_dedup(src: &mut Src, ctx: &mut Ctx, large: bool) -> Result<(), String> {
    // few layouts, many tables
    let mut layouts: Vec<Vec<(u16, Sc, bool)>> = Vec::new();
    let nl = 1 + src.below(5);
    for _ in 0..nl {
        let base = if !layouts.is_empty() && src.flag() {
            // a close relative of another layout
            let mut l = src.pick(&layouts).clone();
            match src.below(4) {
                0 => {
                    l.pop();
                }
                1 if !l.is_empty() => {
                    let i = src.below(l.len());
                    l[i].1 = *src.pick(&SCALARS);
                }
                2 => l.reverse(),
                _ => {}
            }
            l
        } else {
            Vec::new()
        };
        let mut l = base;
        while l.len() < 10 && src.more(2) {
            let slot = if src.chance(9, 10) { src.draw(6) } else { src.draw(200) } as u16;
            if l.iter().all(|x| x.0 != slot) {
                l.push((slot, *src.pick(&SCALARS), src.chance(1, 3)));
            }
        }
        layouts.push(l);
    }
    let seed = if large { src.draw(0) } else { 0 };
    let r = |a: u64, b: u64| mix(mix(seed, a), b);
    if large {
        let n = src.range(1, 600) as u64;
        let slots = src.range(2, 40) as u64;
        for i in 0..n {
            let mut l: Vec<(u16, Sc, bool)> = Vec::new();
            for slot in 0..slots {
                if r(i, slot) % 2 == 0 {
                    let sc = SCALARS[(r(i, 100 + slot) % SCALARS.len() as u64) as usize];
                    l.push((slot as u16, sc, r(i, 200 + slot) % 3 == 0));
                }
            }
            layouts.push(l);
        }
    }
    let cap = gen_capacity(src);
    let mut fbb: Fbb = FlatBufferBuilder::new_with_capacity(cap);
    if src.chance(1, 6) {
        // vtables of an earlier use do not count
        let t = fbb.start_table();
        fbb.push_slot_always::<u8>(4, 1);
        fbb.end_table(t);
        fbb.reset();
    }
    let n = if large { src.range(50, 900) } else { 1 + src.below(24) };
    // every layout once, then again, at growing distances
    let order = large && src.flag();
    let gap = if large && src.chance(1, 3) { src.below(40_000) } else { 0 };
    let mut locs: Vec<u32> = Vec::new();
    let mut story = Vec::new();
    let mut vts: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut positions: BTreeSet<usize> = BTreeSet::new();
    let mut shared = false;
    for i in 0..n {
        if gap > 0 && i % 97 == 50 {
            fbb.create_byte_string(&vec![0xa5u8; gap]);
            story.push(format!("{} bytes", gap));
        }
        if !large && src.chance(1, 4) {
            // something in between, which changes the padding
            let k = src.below(9);
            let s: String = "abcdefghi"[..k].into();
            fbb.create_string(&s);
            story.push(format!("string of {}", k));
        }
        let l = match (large, order) {
            (false, _) => src.pick(&layouts).clone(),
            (true, true) => layouts[i % layouts.len()].clone(),
            _ => layouts[(r(i as u64, 999) % layouts.len() as u64) as usize].clone(),
        };
        let t = fbb.start_table();
        let mut fields = Vec::new();
        for (slot, sc, by_default) in &l {
            let bits = if large {
                sc.norm(r(i as u64, 1000 + *slot as u64))
            } else if *by_default && src.flag() {
                0
            } else {
                sc.norm(src.bits())
            };
            let f = Field {
                slot: *slot,
                val: FieldVal::Sc {
                    sc: *sc,
                    bits,
                    default: if *by_default { Some(0) } else { None },
                },
            };
            push_field(&mut fbb, &f, &[]);
            fields.push(f);
        }
        let o = fbb.end_table(t);
        locs.push(o.value());
        story.push(format!("table {:?}", fields));
        // look at it
        let data = fbb.unfinished_data();
        let pos = data.len() - o.value() as usize;
        let mut st = Strict::new(data);
        let doc = Doc {
            objs: vec![Obj::Tab(fields)],
            root: 0,
        };
        ctx.describe(|| format!("capacity {}: {:?}", cap, story));
        st.object(&doc, 0, pos)?;
        let vt = st.regions.tables[&pos];
        let vn = st.r.rd(vt, 2).unwrap() as usize;
        let content = data[vt..vt + vn].to_vec();
        // positions from the end do not move as the buffer grows
        let rev = data.len() - vt;
        match vts.get(&content) {
            Some(p) if *p != rev => return fail("an equal vtable was stored again"),
            Some(_) => shared = true,
            None => {
                vts.insert(content, rev);
                positions.insert(rev);
            }
        }
        if fbb.num_written_vtables() != vts.len() {
            return fail(format!(
                "{} vtables counted, {} distinct ones",
                fbb.num_written_vtables(),
                vts.len()
            ));
        }
    }
    // earlier tables are still what they were
    let data = fbb.unfinished_data();
    let rr = RefReader { buf: data, few: false };
    for o in &locs {
        let pos = data.len() - *o as usize;
        match rr.vtable(pos) {
            Ok(v) if positions.contains(&(data.len() - v)) => {}
            v => return fail(format!("table at -{} has its vtable at {:?}", o, v)),
        }
    }
    ctx.label_if(shared, "shared vtable");
    ctx.label_if(vts.len() > 2, "more than two distinct vtables");
    ctx.label_if(vts.len() > 100, "more than a hundred distinct vtables");
    if shared && vts.len() > 1 {
        ctx.nontrivial_bytes(data);
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

enum Elems {
    Sc(Sc),
    Str,
    Tab,
}

fn gen_elems(src: &mut Src) -> (Doc, Elems, Vec<Out>) {
    let n = src.len(60);
    match src.weighted(&[3, 2, 1]) {
        0 => {
            let sc = *src.pick(&SCALARS);
            let v: Vec<u64> = (0..n).map(|_| sc.gen(src)).collect();
            let outs = v.iter().map(|x| Out::Sc(*x)).collect();
            (
                Doc {
                    objs: vec![Obj::Vec(sc, v), Obj::Tab(vec![Field { slot: 0, val: FieldVal::Ref(0) }])],
                    root: 1,
                },
                Elems::Sc(sc),
                outs,
            )
        }
        1 => {
            let v: Vec<String> = (0..n).map(|_| gen_string(src, 12)).collect();
            let outs = v.iter().map(|x| Out::Str(x.clone())).collect();
            let mut objs: Vec<Obj> = v.into_iter().map(Obj::Str).collect();
            objs.push(Obj::Refs((0..n).collect()));
            objs.push(Obj::Tab(vec![Field { slot: 0, val: FieldVal::Ref(n) }]));
            (Doc { objs, root: n + 1 }, Elems::Str, outs)
        }
        _ => {
            let n = n.min(20);
            let vals: Vec<u64> = (0..n).map(|_| src.bits()).collect();
            let outs = vals.iter().map(|x| Out::Sc(*x)).collect();
            let mut objs: Vec<Obj> = vals
                .iter()
                .map(|x| {
                    Obj::Tab(vec![Field {
                        slot: 0,
                        val: FieldVal::Sc { sc: Sc::U64, bits: *x, default: None },
                    }])
                })
                .collect();
            objs.push(Obj::Refs((0..n).collect()));
            objs.push(Obj::Tab(vec![Field { slot: 0, val: FieldVal::Ref(n) }]));
            (Doc { objs, root: n + 1 }, Elems::Tab, outs)
        }
    }
}

fn vec_bytes(doc: &Doc, src: &mut Src) -> Vec<u8> {
    if src.flag() {
        encode(doc, src, Header::default()).bytes
    } else {
        let plan = Plan::gen(src);
        let mut fbb: Fbb = FlatBufferBuilder::new();
        let offs = build(&mut fbb, doc, &plan);
        finish(&mut fbb, offs[doc.root], &Header::default(), true);
        fbb.finished_data().to_vec()
    }
}

#[derive(Debug, Clone)]
enum Op {
    Next,
    NextBack,
    Nth(usize),
    NthBack(usize),
    Len,
    Clone,
    Fold,
    Collect,
    RevCollect,
    Last,
    Count,
    SkipStep(usize, usize),
}

fn gen_ops(src: &mut Src, n: usize) -> Vec<Op> {
    let mut ops = Vec::new();
    let avg = 4 + n as u64 / 4;
    while ops.len() < 60 && src.more(avg) {
        ops.push(match src.weighted(&[6, 6, 4, 4, 3, 2, 1, 1, 1, 1, 1, 1]) {
            0 => Op::Next,
            1 => Op::NextBack,
            2 => Op::Nth(gen_n(src, n)),
            3 => Op::NthBack(gen_n(src, n)),
            4 => Op::Len,
            5 => Op::Clone,
            6 => Op::Fold,
            7 => Op::Collect,
            8 => Op::RevCollect,
            9 => Op::Last,
            10 => Op::Count,
            _ => {
                let a = src.below(4);
                let b = 1 + src.below(4);
                Op::SkipStep(a, b)
            }
        });
    }
    ops
}

fn gen_n(src: &mut Src, n: usize) -> usize {
    match src.weighted(&[10, 4, 1]) {
        0 => src.below(3),
        1 => src.below(n + 3),
        _ => *src.pick(&[
            usize::MAX,
            usize::MAX - 1,
            usize::MAX / 2,
            usize::MAX / 4,
            usize::MAX / 8,
            1 << 61,
            1 << 62,
            1 << 63,
            n.wrapping_sub(1),
        ]),
    }
}

fn run_ops<'a, T: Follow<'a> + 'a>(
    v: Vector<'a, T>,
    model: &[Out],
    ops: &[Op],
    f: &dyn Fn(Result<T::Inner, Error>) -> Out,
) -> Result<(), String> {
    let mut it = v.iter();
    let mut q: VecDeque<Out> = model.iter().cloned().collect();
    let nth = |q: &mut VecDeque<Out>, n: usize| {
        let k = n.min(q.len());
        q.drain(..k);
        q.pop_front()
    };
    let nth_back = |q: &mut VecDeque<Out>, n: usize| {
        let k = q.len() - n.min(q.len());
        q.truncate(k);
        q.pop_back()
    };
    for (k, op) in ops.iter().enumerate() {
        let bad = |g: &dyn std::fmt::Debug, w: &dyn std::fmt::Debug| {
            fail(format!("operation {} ({:?}) gave {:?} instead of {:?}", k, op, g, w))
        };
        let (g, w): (Option<Out>, Option<Out>) = match op {
            Op::Next => (it.next().map(f), q.pop_front()),
            Op::NextBack => (it.next_back().map(f), q.pop_back()),
            Op::Nth(n) => (it.nth(*n).map(f), nth(&mut q, *n)),
            Op::NthBack(n) => (it.nth_back(*n).map(f), nth_back(&mut q, *n)),
            Op::Len => {
                if it.len() != q.len() {
                    return bad(&it.len(), &q.len());
                }
                (None, None)
            }
            Op::Clone => {
                let c = it.clone();
                let mut old = std::mem::replace(&mut it, c);
                // using up the original leaves the clone alone
                let _ = old.next();
                let _ = old.next_back();
                (None, None)
            }
            Op::Fold => {
                let g = it.clone().fold(0usize, |a, _| a + 1);
                if g != q.len() {
                    return bad(&g, &q.len());
                }
                (None, None)
            }
            Op::Collect => {
                let g: Vec<Out> = it.clone().map(f).collect();
                let w: Vec<Out> = q.iter().cloned().collect();
                if g != w {
                    return bad(&g, &w);
                }
                (None, None)
            }
            Op::RevCollect => {
                let g: Vec<Out> = it.clone().rev().map(f).collect();
                let w: Vec<Out> = q.iter().rev().cloned().collect();
                if g != w {
                    return bad(&g, &w);
                }
                (None, None)
            }
            Op::Last => (it.clone().last().map(f), q.back().cloned()),
            Op::Count => {
                let g = it.clone().count();
                if g != q.len() {
                    return bad(&g, &q.len());
                }
                (None, None)
            }
            Op::SkipStep(a, b) => {
                let g: Vec<Out> = it.clone().skip(*a).step_by(*b).map(f).collect();
                let w: Vec<Out> = q.iter().cloned().skip(*a).step_by(*b).collect();
                if g != w {
                    return bad(&g, &w);
                }
                (None, None)
            }
        };
        if g != w {
            return bad(&g, &w);
        }
        if it.size_hint() != (q.len(), Some(q.len())) {
            return fail(format!(
                "size_hint {:?} with {} elements left after operation {} ({:?})",
                it.size_hint(),
                q.len(),
                k,
                op
            ));
        }
    }
    // once it is over it stays over
    if q.is_empty() && (it.next().is_some() || it.next_back().is_some()) {
        return fail("an exhausted iterator continued");
    }
    Ok(())
}

/// A table of one u64, as generated code would have it.
#[derive(Clone, Copy)]
struct One;
impl<'a> Follow<'a> for One {
    type Inner = Table<&'a [u8]>;
    fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
        Ok(Table::new(buf, loc))
    }
}

fn one(r: Result<Table<&[u8]>, Error>) -> Out {
    match r {
        Err(e) => err(e),
        Ok(t) => match t.get::<u64>(4, None) {
            Ok(Some(x)) => Out::Sc(x),
            Ok(None) => Out::Absent,
            Err(e) => err(e),
        },
    }
}

/// Vectors longer than 16 bits can count.
fn iterators_long(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let sc = *src.pick(&SCALARS);
    let n = if src.flag() { (1 << 16) - 4 + src.below(9) } else { src.range(100, 140_000) };
    let seed = src.draw(0);
    let v: Vec<u64> = (0..n as u64).map(|i| sc.norm(mix(seed, i))).collect();
    let model: Vec<Out> = v.iter().map(|x| Out::Sc(*x)).collect();
    let doc = Doc {
        objs: vec![Obj::Vec(sc, v), Obj::Tab(vec![Field { slot: 0, val: FieldVal::Ref(0) }])],
        root: 1,
    };
    let bytes = vec_bytes(&doc, src);
    let ops = gen_ops(src, 12)
        .into_iter()
        .map(|o| match o {
            // anywhere, not only near the ends
            Op::Nth(k) if src.chance(1, 3) => Op::Nth(k.wrapping_add(src.below(n))),
            Op::NthBack(k) if src.chance(1, 3) => Op::NthBack(k.wrapping_add(src.below(n))),
            o => o,
        })
        .collect::<Vec<_>>();
    ctx.describe(|| format!("{:?} on {} elements of {:?}", ops, n, sc));
    with_guarded(&bytes, true, 0, |b| {
        let t = root_of(b, &Header::default())?;
        with_sc!(sc, T => {
            let v = t.get::<ForwardsUOffset<Vector<T>>>(4, None).map_err(|e| e.to_string())?.ok_or("no vector")?;
            run_ops(v, &model, &ops, &|r| r.map_or_else(err, |x| Out::Sc(x.bits())))?;
            let at: Vec<usize> = (0..6).map(|_| src.below(n)).collect();
            access(v, &model, &at, &|r| r.map_or_else(err, |x| Out::Sc(x.bits())))
        })
    })?;
    if !ops.is_empty() {
        ctx.nontrivial(mix(hash_bytes(format!("{:?}", ops).as_bytes()), hash_bytes(&bytes)));
    }
    Ok(())
}

fn iterators(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (doc, elems, model) = gen_elems(src);
    let bytes = vec_bytes(&doc, src);
    let ops = gen_ops(src, model.len());
    ctx.describe(|| format!("{:?} on {:?}", ops, model));
    with_guarded(&bytes, true, 0, |b| {
        let t = root_of(b, &Header::default())?;
        match &elems {
            Elems::Sc(sc) => with_sc!(*sc, T => {
                let v = t.get::<ForwardsUOffset<Vector<T>>>(4, None).map_err(|e| e.to_string())?.ok_or("no vector")?;
                run_ops(v, &model, &ops, &|r| r.map_or_else(err, |x| Out::Sc(x.bits())))
            }),
            Elems::Str => {
                let v = t
                    .get::<ForwardsUOffset<Vector<ForwardsUOffset<&str>>>>(4, None)
                    .map_err(|e| e.to_string())?
                    .ok_or("no vector")?;
                run_ops(v, &model, &ops, &|r| r.map_or_else(err, |x| Out::Str(x.to_string())))
            }
            Elems::Tab => {
                let v = t
                    .get::<ForwardsUOffset<Vector<ForwardsUOffset<One>>>>(4, None)
                    .map_err(|e| e.to_string())?
                    .ok_or("no vector")?;
                run_ops(v, &model, &ops, &one)
            }
        }
    })?;
    let front = ops.iter().any(|o| matches!(o, Op::Next | Op::Nth(_)));
    let back = ops.iter().any(|o| matches!(o, Op::NextBack | Op::NthBack(_)));
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Nth(n) | Op::NthBack(n) if *n > 1 << 40)), "huge nth");
    if model.len() >= 3 && front && back {
        ctx.nontrivial(mix(
            hash_bytes(format!("{:?}", ops).as_bytes()),
            hash_bytes(format!("{:?}", model).as_bytes()),
        ));
    }
    Ok(())
}

fn access<'a, T: Follow<'a> + 'a>(
    v: Vector<'a, T>,
    model: &[Out],
    at: &[usize],
    f: &dyn Fn(Result<T::Inner, Error>) -> Out,
) -> Result<(), String> {
    if v.len() != Ok(model.len()) {
        return fail(format!("len {:?} of {}", v.len(), model.len()));
    }
    if v.is_empty() != Ok(model.is_empty()) {
        return fail(format!("is_empty {:?} of {}", v.is_empty(), model.len()));
    }
    for &i in at {
        if i < model.len() {
            let g = f(v.get(i));
            if g != model[i] {
                return fail(format!("get({}) = {:?} instead of {:?}", i, g, model[i]));
            }
        }
    }
    let c = v;
    let a: Vec<Out> = v.into_iter().map(f).collect();
    let b: Vec<Out> = (&c).into_iter().map(f).collect();
    if a != model || b != model {
        return fail(format!("iterating gave {:?} and {:?} instead of {:?}", a, b, model));
    }
    Ok(())
}

fn vec_access(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (doc, elems, model) = gen_elems(src);
    let bytes = vec_bytes(&doc, src);
    let mut at: Vec<usize> = (0..model.len()).collect();
    src.shuffle(&mut at);
    let shift = src.below(8);
    ctx.describe(|| format!("{:?} shift {}", model, shift));
    with_guarded(&bytes, false, shift, |b| {
        let t = root_of(b, &Header::default())?;
        match &elems {
            Elems::Sc(sc) => {
                with_sc!(*sc, T => {
                    let v = t.get::<ForwardsUOffset<Vector<T>>>(4, None).map_err(|e| e.to_string())?.ok_or("no vector")?;
                    access(v, &model, &at, &|r| r.map_or_else(err, |x| Out::Sc(x.bits())))
                })?;
                {
                    let rr = RefReader { buf: b, few: false };
                    let root = rr.uoffset(0).unwrap();
                    let f = rr.field(root, 0).unwrap().unwrap();
                    let p = rr.uoffset(f).unwrap();
                    let want = rr.slice(p, *sc);
                    compare(&want, &object(b, p, &Shape::Slice(*sc), 0, false))?;
                    ctx.label_if(matches!(want, Out::Slice(_)), "slice");
                    ctx.label_if(matches!(want, Out::Err(_)), "misaligned slice");
                }
                Ok(())
            }
            Elems::Str => {
                let v = t
                    .get::<ForwardsUOffset<Vector<ForwardsUOffset<&str>>>>(4, None)
                    .map_err(|e| e.to_string())?
                    .ok_or("no vector")?;
                access(v, &model, &at, &|r| r.map_or_else(err, |x| Out::Str(x.to_string())))
            }
            Elems::Tab => {
                let v = t
                    .get::<ForwardsUOffset<Vector<ForwardsUOffset<One>>>>(4, None)
                    .map_err(|e| e.to_string())?
                    .ok_or("no vector")?;
                access(v, &model, &at, &one)
            }
        }
    })?;
    if !model.is_empty() {
        ctx.nontrivial_bytes(&bytes);
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

fn scalars(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let sc = *src.pick(&SCALARS);
    let bits = sc.gen(src);
    let n = src.below(40);
    let fill = src.bytes(n);
    let at = src.below(n + 2);
    let shift = src.below(9);
    ctx.describe(|| format!("{:?} {:#x} at {} of {} bytes, shift {}", sc, bits, at, n, shift));
    let size = sc.size();
    let le = bits.to_le_bytes();
    // write
    let mut mem = vec![0xA5u8; shift];
    mem.extend_from_slice(&fill);
    mem.extend_from_slice(&[0x5A; 8]);
    let mut model = mem.clone();
    let end = mem.len() - 8;
    let fits = at + size <= n;
    let ok = {
        let dst = &mut mem[shift..end];
        if at <= n {
            catch(|| with_sc!(sc, T => emplace_scalar::<T>(&mut dst[at..], T::of(bits)))).is_ok()
        } else {
            false
        }
    };
    if ok != fits {
        return fail(format!("emplace_scalar {} into {} bytes", if ok { "wrote" } else { "refused" }, n.saturating_sub(at)));
    }
    if fits {
        model[shift + at..shift + at + size].copy_from_slice(&le[..size]);
    }
    if mem != model {
        return fail("emplace_scalar wrote something else than the value's little-endian bytes");
    }
    // read everywhere
    let data = mem[shift..end].to_vec();
    with_guarded(&data, true, 0, |b| {
        let rr = RefReader { buf: b, few: false };
        for p in 0..n + 3 {
            let raw = rr.rd(p, size);
            // any other byte is no bool
            let no_bool = sc == Sc::Bool && matches!(raw, Ok(2..));
            let g = with_sc!(sc, T => read_scalar_at::<T>(b, p).map(|x| x.bits()));
            match (raw, g) {
                (Ok(w), Ok(g)) if w == g && !no_bool => {}
                (Err(_), Err(Error::OutOfBounds)) => {}
                (Ok(_), Err(Error::InvalidBool)) if no_bool => {}
                (w, g) => return fail(format!("read_scalar_at({}) = {:?} instead of {:?}", p, g, w)),
            }
            if p <= n {
                let g = with_sc!(sc, T => read_scalar::<T>(&b[p..]).map(|x| x.bits()));
                match (raw, g) {
                    (Ok(w), Ok(g)) if w == g && !no_bool => {}
                    (Err(_), Err(Error::OutOfBounds)) => {}
                    (Ok(_), Err(Error::InvalidBool)) if no_bool => {}
                    (w, g) => return fail(format!("read_scalar at {} = {:?} instead of {:?}", p, g, w)),
                }
            }
            let g = with_sc!(sc, T => <T as Follow>::follow(b, p).map(|x| x.bits()));
            match (rr.scalar(p, sc), g) {
                (Ok(w), Ok(g)) if w == g => {}
                (Err(_), Err(Error::OutOfBounds)) => {}
                (w, g) => return fail(format!("follow({}) = {:?} instead of {:?}", p, g, w)),
            }
        }
        if sc == Sc::Bool {
            // any byte but zero is true when following
            for p in 0..n {
                if <bool as Follow>::follow(b, p) != Ok(b[p] != 0) {
                    return fail(format!("bool at {} of byte {:#x}", p, b[p]));
                }
            }
        }
        Ok(())
    })?;
    // conversions
    with_sc!(sc, T => {
        let x = T::of(bits);
        let there = x.to_little_endian();
        if there.from_little_endian().bits() != bits {
            return fail("from_little_endian does not undo to_little_endian");
        }
        if cfg!(target_endian = "little") && there.bits() != bits {
            return fail("to_little_endian changes the value on a little-endian host");
        }
    });
    let f = f32::from_bits(bits as u32);
    if byte_swap_f32(f).to_bits() != (bits as u32).swap_bytes()
        || byte_swap_f32(byte_swap_f32(f)).to_bits() != bits as u32
    {
        return fail("byte_swap_f32");
    }
    let f = f64::from_bits(bits);
    if byte_swap_f64(f).to_bits() != bits.swap_bytes() || byte_swap_f64(byte_swap_f64(f)).to_bits() != bits {
        return fail("byte_swap_f64");
    }
    let slot = (bits % 32765) as u16;
    if field_index_to_field_offset(slot) != 4 + 2 * slot {
        return fail(format!("field_index_to_field_offset({})", slot));
    }
    ctx.label_if(fits, "written");
    ctx.label_if(!fits, "does not fit");
    if size > 1 {
        ctx.nontrivial(mix(mix(bits, sc as u64), (at * 64 + n) as u64));
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

#[derive(Debug, Clone)]
enum Call {
    StartTable,
    PushSlot(u16, Sc, u64),
    PushSlotAlways(u16, Sc, u64),
    EndTable,
    StartVector(Sc, usize),
    Push(Sc, u64),
    EndVector(Sc),
    CreateString(String),
    CreateByteString(Vec<u8>),
    CreateVectorDirect(Vec<u32>),
    CreateVectorOfStrings(usize),
    CreateVector(Vec<u16>),
    Finish(u8),
    FinishedData,
    UnfinishedData,
    BadIdent(bool),
    Reset,
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Idle,
    Table(Vec<u16>, bool),
    Vector,
    Finished,
}

/// Is the call allowed, refused, or outside what the builder defines?
fn allowed(st: &St, c: &Call, have_root: bool) -> Option<bool> {
    Some(match (st, c) {
        (_, Call::Reset) | (_, Call::UnfinishedData) => true,
        (St::Finished, Call::FinishedData) => true,
        (_, Call::FinishedData) => false,
        (St::Finished, Call::Finish(_)) | (St::Finished, Call::BadIdent(_)) => false,
        // after finish only the data and reset are defined
        (St::Finished, _) => return None,
        (St::Idle, Call::StartTable)
        | (St::Idle, Call::StartVector(..))
        | (St::Idle, Call::CreateString(_))
        | (St::Idle, Call::CreateByteString(_))
        | (St::Idle, Call::CreateVectorDirect(_))
        | (St::Idle, Call::CreateVectorOfStrings(_))
        | (St::Idle, Call::CreateVector(_)) => true,
        (St::Idle, Call::Finish(_)) if have_root => true,
        (St::Idle, Call::Finish(_)) => return None,
        (St::Idle, Call::BadIdent(_)) if have_root => false,
        (St::Idle, Call::BadIdent(_)) => return None,
        (St::Idle, Call::PushSlot(..))
        | (St::Idle, Call::PushSlotAlways(..))
        | (St::Idle, Call::EndTable)
        | (St::Idle, Call::EndVector(_)) => false,
        // loose scalars are allowed but useless
        (St::Idle, Call::Push(..)) => return None,
        (St::Table(..), Call::PushSlot(..)) | (St::Table(..), Call::PushSlotAlways(..)) => true,
        (St::Table(_, dup), Call::EndTable) => !dup,
        (St::Vector, Call::Push(..)) => true,
        (St::Vector, Call::EndVector(_)) => true,
        (_, Call::StartTable)
        | (_, Call::StartVector(..))
        | (_, Call::CreateString(_))
        | (_, Call::CreateByteString(_))
        | (_, Call::CreateVectorDirect(_))
        | (_, Call::CreateVectorOfStrings(_))
        | (_, Call::Finish(_))
        | (_, Call::BadIdent(_)) => false,
        (_, Call::CreateVector(_)) => false,
        // mixing up tables and vectors: not checked
        _ => return None,
    })
}

fn gen_call(src: &mut Src, st: &St) -> Call {
    let sc = *src.pick(&SCALARS);
    let slot = src.draw(6) as u16;
    let in_table = matches!(st, St::Table(..));
    let in_vec = matches!(st, St::Vector);
    match src.weighted(&[
        4,
        if in_table { 12 } else { 1 },
        if in_table { 8 } else { 1 },
        if in_table { 6 } else { 1 },
        2,
        if in_vec { 8 } else { 0 },
        if in_vec { 4 } else { 1 },
        2,
        1,
        1,
        1,
        1,
        2,
        1,
        1,
        1,
        if *st == St::Finished { 6 } else { 1 },
    ]) {
        0 => Call::StartTable,
        1 => Call::PushSlot(slot, sc, sc.gen(src)),
        2 => Call::PushSlotAlways(slot, sc, sc.gen(src)),
        3 => Call::EndTable,
        4 => Call::StartVector(sc, src.below(5)),
        5 => Call::Push(sc, sc.gen(src)),
        6 => Call::EndVector(sc),
        7 => Call::CreateString(gen_string(src, 8)),
        8 => {
            let n = src.below(8);
            Call::CreateByteString(src.bytes(n))
        }
        9 => {
            let n = src.below(5);
            Call::CreateVectorDirect((0..n).map(|_| src.bits() as u32).collect())
        }
        10 => Call::CreateVectorOfStrings(src.below(20)),
        11 => {
            let n = src.below(5);
            Call::CreateVector((0..n).map(|_| src.bits() as u16).collect())
        }
        12 => Call::Finish(src.draw(4) as u8),
        13 => Call::FinishedData,
        14 => Call::UnfinishedData,
        15 => Call::BadIdent(src.flag()),
        _ => Call::Reset,
    }
}

fn protocol(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut fbb: Fbb = FlatBufferBuilder::new_with_capacity(gen_capacity(src));
    let mut st = St::Idle;
    let mut open: Option<WIPOffset<TableUnfinishedWIPOffset>> = None;
    let mut vec_left: (Sc, usize, usize) = (Sc::U8, 0, 0);
    let mut root: Option<u32> = None;
    let mut calls: Vec<Call> = Vec::new();
    let mut refused = false;
    let mut tries = 0;
    while tries < 80 && src.more(18) {
        tries += 1;
        let mut c = gen_call(src, &st);
        // well-formed vectors: elements of the announced type
        if let (St::Vector, Call::Push(_, b)) = (&st, &c) {
            if vec_left.1 == 0 {
                continue;
            }
            c = Call::Push(vec_left.0, vec_left.0.norm(*b));
        }
        if let (St::Vector, Call::EndVector(_)) = (&st, &c) {
            if vec_left.1 != 0 {
                continue;
            }
            c = Call::EndVector(vec_left.0);
        }
        let ok = match allowed(&st, &c, root.is_some()) {
            None => continue,
            Some(ok) => ok,
        };
        calls.push(c.clone());
        ctx.describe(|| format!("{:?} (last: {})", calls, if ok { "allowed" } else { "to be refused" }));
        let rr = root.unwrap_or(0);
        let open2 = open.unwrap_or(WIPOffset::new(0));
        let r: Result<Option<u32>, String> = catch(|| match &c {
            Call::StartTable => Some(fbb.start_table().value()),
            Call::PushSlot(s, sc, b) => with_sc!(*sc, T => {
                fbb.push_slot::<T>(slot_off(*s), T::of(*b), T::of(0));
                None
            }),
            Call::PushSlotAlways(s, sc, b) => with_sc!(*sc, T => {
                fbb.push_slot_always::<T>(slot_off(*s), T::of(*b));
                None
            }),
            Call::EndTable => Some(fbb.end_table(open2).value()),
            Call::StartVector(sc, n) => with_sc!(*sc, T => {
                fbb.start_vector::<T>(*n);
                None
            }),
            Call::Push(sc, b) => with_sc!(*sc, T => {
                fbb.push::<T>(T::of(*b));
                None
            }),
            Call::EndVector(sc) => with_sc!(*sc, T => {
                Some(fbb.end_vector::<T>(vec_left.2).value())
            }),
            Call::CreateString(s) => Some(fbb.create_string(s).value()),
            Call::CreateByteString(s) => Some(fbb.create_byte_string(s).value()),
            Call::CreateVectorDirect(v) => Some(fbb.create_vector_direct(v).value()),
            Call::CreateVectorOfStrings(n) => {
                let v = vec!["x"; *n];
                Some(fbb.create_vector_of_strings(&v).value())
            }
            Call::CreateVector(v) => Some(fbb.create_vector(v).value()),
            Call::Finish(k) => {
                let w: WIPOffset<TableFinishedWIPOffset> = WIPOffset::new(rr);
                match k {
                    0 => fbb.finish_minimal(w),
                    1 => fbb.finish(w, None),
                    2 => fbb.finish(w, Some("ABCD")),
                    _ => fbb.finish_size_prefixed(w, Some("ABCD")),
                }
                None
            }
            Call::BadIdent(p) => {
                let w: WIPOffset<TableFinishedWIPOffset> = WIPOffset::new(rr);
                if *p {
                    fbb.finish_size_prefixed(w, Some("ABC"))
                } else {
                    fbb.finish(w, Some("ABCDE"))
                }
                None
            }
            Call::FinishedData => {
                let _ = fbb.finished_data().len();
                None
            }
            Call::UnfinishedData => {
                let _ = fbb.unfinished_data().len();
                None
            }
            Call::Reset => {
                fbb.reset();
                None
            }
        });
        match (ok, &r) {
            (true, Err(p)) => return fail(format!("{:?} was refused: {}", c, p)),
            (false, Ok(_)) => return fail(format!("{:?} in state {:?} was accepted", c, st)),
            (false, Err(_)) => {
                refused = true;
                break;
            }
            (true, Ok(_)) => {}
        }
        let off = r.unwrap();
        st = match (st, &c) {
            (_, Call::Reset) => {
                root = None;
                St::Idle
            }
            (_, Call::StartTable) => {
                open = off.map(WIPOffset::new);
                St::Table(vec![], false)
            }
            (St::Table(mut v, mut d), Call::PushSlot(s, sc, b)) => {
                if !sc.same(*b, 0) {
                    d |= v.contains(s);
                    v.push(*s);
                }
                St::Table(v, d)
            }
            (St::Table(mut v, mut d), Call::PushSlotAlways(s, ..)) => {
                d |= v.contains(s);
                v.push(*s);
                St::Table(v, d)
            }
            (St::Table(..), Call::EndTable) => {
                root = off;
                St::Idle
            }
            (_, Call::StartVector(sc, n)) => {
                vec_left = (*sc, *n, *n);
                St::Vector
            }
            (st, Call::Push(..)) => {
                vec_left.1 -= 1;
                st
            }
            (_, Call::EndVector(_)) => St::Idle,
            (_, Call::Finish(_)) => St::Finished,
            (st, _) => st,
        };
    }
    // whatever happened, reset makes it a new builder
    fbb.reset();
    let m = gen_made(
        src,
        &DocCfg {
            max_objs: 4,
            big_slots: false,
            max_vec: 10,
        },
    );
    let mut fresh = m.fresh();
    m.bytes(&mut fresh);
    m.bytes(&mut fbb);
    if fresh.finished_data() != fbb.finished_data() {
        return fail("after a refused call and reset the builder builds something else");
    }
    ctx.label_if(refused, "refused call");
    ctx.label_if(!refused, "all calls allowed");
    if refused && calls.len() > 1 {
        ctx.nontrivial_bytes(format!("{:?}", calls).as_bytes());
    }
    Ok(())
}

fn index_refused(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let sc = *src.pick(&SCALARS);
    let n = src.below(6);
    let v: Vec<u64> = (0..n).map(|_| sc.gen(src)).collect();
    let doc = Doc {
        objs: vec![Obj::Vec(sc, v.clone()), Obj::Tab(vec![Field { slot: 0, val: FieldVal::Ref(0) }])],
        root: 1,
    };
    let bytes = vec_bytes(&doc, src);
    let i = if src.flag() { src.below(n + 1) } else { n + src.below(10) };
    ctx.describe(|| format!("index {} of {:?} {:?}", i, sc, v));
    let r = with_sc!(sc, T => {
        let t = root_of(&bytes[..], &Header::default())?;
        let v = t.get::<ForwardsUOffset<Vector<T>>>(4, None).map_err(|e| e.to_string())?.ok_or("no vector")?;
        catch(|| v.get(i).map(|x| x.bits()))
    });
    match r {
        Ok(Ok(x)) if i < n && x == v[i] => {}
        Err(_) if i >= n => {}
        // refusing with an error would do, too
        Ok(Err(_)) if i >= n => {}
        r => return fail(format!("get({}) of {} elements gave {:?}", i, n, r)),
    }
    if i >= n {
        ctx.nontrivial(mix(hash_bytes(&bytes), i as u64));
    }
    Ok(())
}

fn required(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let doc = gen_doc(
        src,
        &DocCfg {
            max_objs: 8,
            big_slots: false,
            max_vec: 10,
        },
    );
    let plan = Plan::gen(src);
    let mut fbb: Fbb = FlatBufferBuilder::new();
    let offs = build(&mut fbb, &doc, &plan);
    let tabs: Vec<Id> = (0..doc.objs.len()).filter(|i| matches!(doc.objs[*i], Obj::Tab(_))).collect();
    let id = *src.pick(&tabs);
    let fs = match &doc.objs[id] {
        Obj::Tab(fs) => fs,
        _ => unreachable!(),
    };
    let slot = if !fs.is_empty() && src.flag() {
        src.pick(fs).slot
    } else {
        src.draw(12) as u16
    };
    let there = fs.iter().any(|f| f.slot == slot && f.stored());
    ctx.describe(|| format!("slot {} of {:?}", slot, fs));
    let r = catch(|| fbb.required(WIPOffset::new(offs[id]), slot_off(slot), "the_field"));
    if r.is_ok() != there {
        return fail(format!(
            "required: slot {} is {} but the call {}",
            slot,
            if there { "present" } else { "absent" },
            if r.is_ok() { "passed" } else { "panicked" }
        ));
    }
    ctx.label_if(there, "present");
    ctx.label_if(!there, "absent");
    if !fs.is_empty() {
        ctx.nontrivial(mix(hash_bytes(fbb.unfinished_data()), (id * 1000 + slot as usize) as u64));
    }
    Ok(())
}

fn limits(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // tables whose inline data does not fit the format's 16-bit offsets
    let n = *src.pick(&[8189u16, 8190, 8191, 8192, 8195, 8300, 12000]);
    ctx.describe(|| format!("{} 8-byte fields", n));
    let mut fbb: Fbb = FlatBufferBuilder::new();
    let r = catch(|| {
        let t = fbb.start_table();
        for s in 0..n {
            fbb.push_slot_always::<u64>(slot_off(s), s as u64);
        }
        fbb.end_table(t).value()
    });
    // 4 bytes of vtable offset, and 4 of padding in front of it
    let size = 8 * n as usize + 4;
    match r {
        Ok(o) => {
            if size + 4 >= 0x10000 && size >= 0x10000 {
                return fail(format!("a table of {} bytes was accepted", size));
            }
            let data = fbb.unfinished_data();
            let t = Table::new(data, data.len() - o as usize);
            for s in 0..n {
                if t.get::<u64>(slot_off(s), None) != Ok(Some(s as u64)) {
                    return fail(format!("slot {} of {}", s, n));
                }
            }
        }
        Err(e) if size < 0x10000 - 4 => return fail(format!("a table of {} bytes was refused: {}", size, e)),
        Err(_) => {}
    }
    // more than the format can address
    let over = FLATBUFFERS_MAX_BUFFER_SIZE + 1 + src.draw(1000) as usize;
    if catch(|| {
        let _: Fbb = FlatBufferBuilder::new_with_capacity(over);
    })
    .is_ok()
    {
        return fail(format!("a capacity of {} was accepted", over));
    }
    ctx.nontrivial(mix(n as u64, over as u64));
    Ok(())
}

/// A buffer may fill the 2 GB the format allows, and not a byte more.
fn growth(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // one at a time: this takes gigabytes
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    const MAX: usize = FLATBUFFERS_MAX_BUFFER_SIZE;
    let cap = match src.below(3) {
        0 => MAX,
        1 => MAX - src.below(1000),
        _ => MAX / 2,
    };
    let first = MAX / 2 + src.below(MAX / 4);
    let fits = src.flag();
    let by = src.below(40);
    let mut used = 0;
    let mut fbb: Fbb = FlatBufferBuilder::new_with_capacity(cap);
    // with its terminator, and its length in front
    let size = |used: usize, n: usize| (used + n + 1 + 3) / 4 * 4 + 4;
    let zeros = vec![0u8; first.max(MAX - first) + 64];
    fbb.create_byte_string(&zeros[..first]);
    used = size(used, first);
    if fbb.unfinished_data().len() != used {
        return fail(format!("{} bytes used instead of {}", fbb.unfinished_data().len(), used));
    }
    // what is left, and then a little less or more
    let left = MAX - used - 5;
    let n = if fits { left - by } else { left + 1 + by };
    ctx.describe(|| format!("capacity {}, {} bytes, then {} of {}", cap, first, n, left));
    let total = size(used, n);
    assert_eq!(total <= MAX, fits);
    let r = catch(|| fbb.create_byte_string(&zeros[..n]).value());
    match r {
        Ok(_) if !fits => return fail(format!("the buffer grew to {} bytes", total)),
        Ok(o) => {
            if o as usize != total || fbb.unfinished_data().len() != total {
                return fail(format!("{} bytes used instead of {}", fbb.unfinished_data().len(), total));
            }
        }
        Err(e) if fits => return fail(format!("{} bytes were refused: {}", total, e)),
        Err(_) => {}
    }
    ctx.label(if fits { "fits" } else { "too much" });
    ctx.nontrivial(mix(cap as u64, mix(first as u64, n as u64)));
    Ok(())
}

// ------------------------------------------------------------------ C11

fn finishing(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let cfg = DocCfg {
        max_objs: 6,
        big_slots: false,
        max_vec: 20,
    };
    let mut m = gen_made(src, &cfg);
    // identifiers may hold any UTF-8 of four bytes
    if src.chance(1, 5) {
        let s = *src.pick(&["éa\0", "日a", "🦀", "ABCD", "    ", "\0\0\0\0"]);
        let mut b = [b'x'; 4];
        b[..s.len().min(4)].copy_from_slice(&s.as_bytes()[..s.len().min(4)]);
        if std::str::from_utf8(&b).is_ok() {
            m.header.ident = Some(b);
        }
    }
    // the root may be any table, not only the last object
    let tabs: Vec<Id> = (0..m.doc.objs.len()).filter(|i| matches!(m.doc.objs[*i], Obj::Tab(_))).collect();
    m.doc.root = *src.pick(&tabs);
    ctx.describe(|| m.show());
    let mut fbb = m.fresh();
    m.bytes(&mut fbb);
    let data = fbb.finished_data().to_vec();
    let mut s = Strict::new(&data);
    let root = s.header(&m.header)?;
    let t = root_of(&data[..], &m.header)?;
    if t.loc != root {
        return fail(format!("root at {} instead of {}", t.loc, root));
    }
    s.object(&m.doc, m.doc.root, root)?;
    // the same through a Table's own functions and an owned buffer
    let t2 = if m.header.prefixed {
        Table::get_size_prefixed_root(data.clone())
    } else {
        Table::get_root(data.clone())
    };
    if t2.map(|t| t.loc) != Ok(root) {
        return fail("Table::get_root finds another root");
    }
    if let Some(id) = m.header.ident {
        let id = std::str::from_utf8(&id).unwrap();
        if buffer_has_identifier(&data, id, m.header.prefixed) != Ok(true) {
            return fail(format!("identifier {:?} is not recognised", id));
        }
        // any other identifier
        let mut other = id.as_bytes().to_vec();
        let k = src.below(4);
        if other[k] < 128 {
            let old = other[k];
            other[k] = src.draw(128) as u8;
            if other[k] != old {
                let other = std::str::from_utf8(&other).unwrap();
                if buffer_has_identifier(&data, other, m.header.prefixed) != Ok(false) {
                    return fail(format!("identifier {:?} is taken for {:?}", id, other));
                }
            }
        }
        // where it must not be looked for
        let b = &data[if m.header.prefixed { 4 } else { 8 }..];
        if b.get(..4) != Some(id.as_bytes())
            && buffer_has_identifier(&data, id, !m.header.prefixed) == Ok(true)
        {
            return fail("identifier found in the wrong place");
        }
    } else {
        let at = if m.header.prefixed { 8 } else { 4 };
        let want = data.get(at..at + 4).map(|b| b == b"ABCD");
        let got = buffer_has_identifier(&data, "ABCD", m.header.prefixed);
        if got.ok() != want {
            return fail("buffer_has_identifier on a buffer without one");
        }
    }
    // too short for the header
    let need = 4 + if m.header.prefixed { 4 } else { 0 };
    for n in 0..need {
        let cut = &data[..n];
        let r = if m.header.prefixed {
            get_size_prefixed_root::<Table<&[u8]>, _>(cut).map(|t| t.loc)
        } else {
            get_root::<Table<&[u8]>, _>(cut).map(|t| t.loc)
        };
        if r != Err(Error::OutOfBounds) {
            return fail(format!("root of {} bytes: {:?}", n, r));
        }
    }
    for n in 0..need + 4 {
        if buffer_has_identifier(&data[..n.min(data.len())], "ABCD", m.header.prefixed).is_ok() && n < need + 4 {
            return fail(format!("identifier of {} bytes", n));
        }
    }
    // a wrong number of characters is refused in every build
    if catch(|| buffer_has_identifier(&data, "ABC", false)).is_ok() {
        return fail("an identifier of three bytes was accepted");
    }
    ctx.label_if(m.header.prefixed, "size prefix");
    ctx.label_if(m.header.ident.is_some(), "identifier");
    if m.header.prefixed || m.header.ident.is_some() {
        ctx.nontrivial_bytes(&data);
    }
    Ok(())
}
