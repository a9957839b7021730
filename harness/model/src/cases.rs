//! C17 to C23: the code generated for a set of schemas, driven with values
//! and bytes. The schemas are generated, compiled and linked into one program
//! (`gen prepare`), which then runs these cases.

use crate::glue::*;
use crate::schema::*;
use crate::val::*;
use butte::FlatBufferBuilder;
use std::sync::OnceLock;
use vpbt::run::{Args, CaseFn};
use vpbt::src::{hash_bytes, mix};
use vpbt::wire::*;
use vpbt::{Ctx, Part, Prop, Src};

pub const IDS: [&str; 7] = ["C17", "C18", "C19", "C20", "C21", "C22", "C23"];

/// Schemas for one property: one, or an old and a new version of one.
pub fn make(id: &str, src: &mut Src) -> Vec<Schema> {
    let mut cfg = Cfg {
        rpcs: 0,
        docs: 0,
        metas: src.chance(1, 4),
        tables: src.range(1, 6),
        fields: src.range(3, 12),
        required: *src.pick(&[0, 1, 3]),
        big: 25,
        ..Cfg::default()
    };
    match id {
        "C18" => {
            cfg.types = [10, 1, 5, 2, 1, 1];
            cfg.defaults = 6;
            cfg.fields = src.range(4, 14);
        }
        "C19" => cfg.required = 4,
        "C20" => {
            cfg.enums = 5;
            cfg.bigs = [0, 3, 0, 1];
            cfg.types = [2, 1, 8, 2, 1, 4];
        }
        "C21" => {
            cfg.unions = 4;
            cfg.bigs = [1, 0, 3, 1];
            cfg.types = [2, 1, 1, 2, 8, 2];
            cfg.tables = src.range(2, 7);
        }
        "C22" => {
            cfg.tables = src.range(1, 5);
            cfg.types = [6, 2, 4, 4, 4, 4];
            cfg.unions = 3;
            cfg.bigs = [3, 3, 1, 0];
        }
        _ => {
            for w in &mut cfg.types {
                if src.chance(1, 4) {
                    *w *= 4;
                }
            }
        }
    }
    let mut s = Schema::gen(src, &cfg);
    if id == "C22" {
        let old = earlier(&mut s, src);
        vec![old, s]
    } else {
        vec![s]
    }
}

/// An earlier version of the schema: without the last fields of tables, the
/// last variants of enums and unions, under other names and in another order.
fn earlier(new: &mut Schema, src: &mut Src) -> Schema {
    let keep: Vec<usize> = new
        .tables
        .iter()
        .map(|t| {
            let n = t.fields.len();
            if src.chance(2, 3) {
                n - src.below(n.min(5) + 1)
            } else {
                n
            }
        })
        .collect();
    for (t, k) in new.tables.iter_mut().zip(&keep) {
        for f in &mut t.fields[*k..] {
            // what is added later must not be required
            f.required = false;
        }
    }
    let mut old = new.clone();
    for (t, k) in old.tables.iter_mut().zip(&keep) {
        t.fields.truncate(*k);
    }
    for e in 0..old.enums.len() {
        let used = old
            .tables
            .iter()
            .flat_map(|t| &t.fields)
            .filter(|f| f.ty == Ty::Enum(e))
            .filter_map(|f| match &f.default {
                Some(crate::raw::RDefault::Ident(i)) => old.enums[e].vars.iter().position(|v| v.name == *i),
                _ => None,
            })
            .max()
            .unwrap_or(0);
        let n = old.enums[e].vars.len();
        let k = if src.chance(2, 3) { n - src.below(n.min(4)) } else { n };
        old.enums[e].vars.truncate(k.max(used + 1));
    }
    for u in 0..old.unions.len() {
        // a required field needs a variant without a cycle
        let need = old
            .tables
            .iter()
            .enumerate()
            .filter(|(_, t)| t.fields.iter().any(|f| f.required && f.ty == Ty::Union(u)))
            .map(|(t, _)| old.unions[u].vars.iter().position(|v| *v < t).unwrap())
            .max()
            .unwrap_or(0);
        let n = old.unions[u].vars.len();
        let k = if src.chance(2, 3) { n - src.below(n.min(4)) } else { n };
        let k = k.max(need + 1);
        old.unions[u].vars.truncate(k);
        old.unions[u].values.truncate(k);
        old.unions[u].docs.truncate(k);
    }
    if src.flag() {
        // names are not on the wire
        for t in &mut old.tables {
            for i in 0..t.fields.len() {
                if src.chance(1, 3) {
                    t.fields[i].name = format!("renamed{}f", i);
                }
            }
        }
        for (i, e) in old.enums.iter_mut().enumerate() {
            if src.chance(1, 3) {
                e.name = format!("RenamedEnum{}e", i);
            }
        }
        for i in 0..old.tables.len() {
            if src.chance(1, 3) {
                old.tables[i].name = format!("RenamedTable{}t", i);
            }
        }
    }
    src.shuffle(&mut old.order);
    let o = old.order.clone();
    let mut o = o;
    o.sort_by_key(|i| old.ns_of(*i) != 0);
    old.order = o;
    old
}

pub fn count(id: &str, tier: &str) -> usize {
    let n = match tier {
        "thorough" => 4000,
        _ => 600,
    };
    // for experiments; checks do not set it
    let scale = std::env::var("VPBT_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let n = (n as f64 * scale) as usize;
    if id == "C22" {
        n * 3 / 4
    } else {
        n
    }
}

pub fn corpus_src(id: &str, seed: u64, k: usize) -> Src {
    Src::random(mix(mix(seed, hash_bytes(id.as_bytes())), k as u64))
}

/// The schemas of a run.
pub fn corpus(id: &str, seed: u64, tier: &str) -> Vec<Vec<Schema>> {
    (0..count(id, tier)).map(|k| make(id, &mut corpus_src(id, seed, k))).collect()
}

struct World {
    schemas: Vec<Vec<Schema>>,
    glue: Vec<&'static SchemaGlue>,
}

static WORLD: OnceLock<World> = OnceLock::new();

/// Entry of the program `gen prepare` makes; `glue` is in the order of the
/// corpus, flattened.
pub fn main(id: &'static str, seed: u64, tier: &str, glue: Vec<&'static SchemaGlue>) {
    let a = Args::from_env();
    let schemas = corpus(id, seed, tier);
    if schemas.iter().map(|v| v.len()).sum::<usize>() != glue.len() || a.seed != seed || a.tier != tier {
        eprintln!("this program was made for another run");
        std::process::exit(2);
    }
    let _ = WORLD.set(World { schemas, glue });
    vpbt::run::main(vec![prop(id)]);
}

fn part(name: &'static str, run: CaseFn, quick: u64, thorough: u64) -> Part {
    Part {
        name,
        run,
        quick,
        thorough,
        debug_only: false,
    }
}

fn prop(id: &'static str) -> Prop {
    let (parts, rule): (Vec<Part>, &'static str) = match id {
        "C17" => (
            vec![
                part("create", create, 120_000, 4_000_000),
                part("wire", wire, 100_000, 4_000_000),
                part("foreign", foreign, 120_000, 4_000_000),
            ],
            "the root table has at least three fields and one of them is set; distinct by schema, table and value",
        ),
        "C18" => (
            vec![
                part("create", create, 100_000, 4_000_000),
                part("stored", wire, 100_000, 4_000_000),
                part("read", dropped, 120_000, 4_000_000),
            ],
            "the root table has at least three fields and one of them is set; distinct by schema, table and value",
        ),
        "C19" => (
            vec![
                part("create", create, 80_000, 3_000_000),
                part("wire", wire, 80_000, 3_000_000),
                part("missing", dropped, 150_000, 5_000_000),
                part("nothing set", bare, 20_000, 500_000),
            ],
            "the table or one below it has a required field; distinct by schema, table and value",
        ),
        "C20" => (
            vec![
                part("numbers", numbers, 150_000, 5_000_000),
                part("create", create, 60_000, 2_000_000),
                part("wire", wire, 60_000, 2_000_000),
                part("unknown", unknown_enums, 100_000, 4_000_000),
            ],
            "the schema has an enum; distinct by schema, enum and number, or by table and value",
        ),
        "C21" => (
            vec![
                part("companions", companions, 60_000, 2_000_000),
                part("create", create, 80_000, 3_000_000),
                part("wire", wire, 80_000, 3_000_000),
                part("types", unknown_types, 150_000, 5_000_000),
            ],
            "the schema has a union; distinct by schema, table and value",
        ),
        "C22" => (
            vec![
                part("forward", new_to_old, 150_000, 5_000_000),
                part("backward", old_to_new, 150_000, 5_000_000),
                part("foreign", across_foreign, 100_000, 4_000_000),
            ],
            "the two versions of the table differ; distinct by schema, table and value",
        ),
        "C23" => (
            vec![part("damaged", damaged, 250_000, 10_000_000), part("random", random, 150_000, 5_000_000)],
            "at least one error below the root; distinct by schema, table and bytes",
        ),
        _ => panic!("{}", id),
    };
    Prop {
        id,
        parts,
        known: vec![],
        rule,
        assumptions: &["the reference encoder and decoder in vpbt/src/wire.rs follow the FlatBuffers format"],
    }
}

// ------------------------------------------------------------------- cases

struct Case {
    /// index in the corpus, version
    at: (usize, usize),
    s: &'static Schema,
    g: &'static SchemaGlue,
    t: usize,
}

fn world() -> &'static World {
    WORLD.get().expect("no schemas")
}

fn version(k: usize, v: usize) -> (&'static Schema, &'static SchemaGlue) {
    let w = world();
    let at: usize = w.schemas[..k].iter().map(|x| x.len()).sum::<usize>() + v;
    (&w.schemas[k][v], w.glue[at])
}

fn pick(src: &mut Src) -> Case {
    let k = src.below(world().schemas.len());
    let (s, g) = version(k, 0);
    let t = src.below(s.tables.len());
    Case { at: (k, 0), s, g, t }
}

impl Case {
    fn glue(&self) -> &'static TableGlue {
        &self.g.tables[self.t]
    }
    fn table(&self) -> &'static TableDef {
        &self.s.tables[self.t]
    }
    fn show(&self, v: &str) -> String {
        format!("{} as {} of\n{}", v, self.table().name, self.s.text())
    }
    fn key(&self, v: &[u8]) -> u64 {
        mix(mix(self.at.0 as u64, self.t as u64), hash_bytes(v))
    }
    fn fail<T>(&self, m: String) -> Result<T, String> {
        Err(format!("{}\nschema:\n{}", m, self.s.text()))
    }
    /// Something to see in this case?
    fn interesting(&self, id: u8) -> bool {
        let f = &self.table().fields;
        match id {
            0 => f.len() >= 3,
            1 => self.s.tables.iter().any(|t| t.fields.iter().any(|f| f.required)),
            2 => !self.s.enums.is_empty(),
            _ => !self.s.unions.is_empty(),
        }
    }
}

fn which() -> u8 {
    // by property, from the name it runs under
    static W: OnceLock<u8> = OnceLock::new();
    *W.get_or_init(|| {
        match std::env::args().nth(2).as_deref() {
            Some("C19") => 1,
            Some("C20") => 2,
            Some("C21") => 3,
            _ => 0,
        }
    })
}

fn vcfg(src: &mut Src) -> VCfg {
    let absent = *src.pick(&[1, 2, 4, 7]);
    let dflt = *src.pick(&[0, 1, 4]);
    let depth = src.range(1, 5);
    let max_list = *src.pick(&[3, 12, 40]);
    // now and then something long or deep
    match src.below(600) {
        599 => VCfg {
            absent: absent.min(2),
            dflt,
            depth,
            max_list,
            long: 1 + src.below(2),
        },
        598 => VCfg {
            absent: 1,
            dflt,
            depth: 80,
            max_list: 3,
            long: 0,
        },
        _ => VCfg {
            absent,
            dflt,
            depth,
            max_list,
            long: 0,
        },
    }
}

fn builder(c: &Case, src: &mut Src) -> FlatBufferBuilder<'static> {
    let mut b = match src.below(3) {
        0 => FlatBufferBuilder::new(),
        1 => FlatBufferBuilder::new_with_capacity(src.below(40)),
        _ => FlatBufferBuilder::new_with_capacity(1 << src.below(14)),
    };
    if src.chance(1, 4) {
        // used before
        let t = src.below(c.s.tables.len());
        let cfg = vcfg(src);
        let v = Gen::new(c.s, cfg).table(t, src, 0);
        (c.g.tables[t].build)(&mut b, &v, Finish::Minimal);
        b.reset();
    }
    b
}

fn finish(src: &mut Src) -> Finish {
    match src.below(8) {
        0..=3 => Finish::Minimal,
        4 | 5 => Finish::Ident("VPBT"),
        6 => Finish::Sized(None),
        _ => Finish::Sized(Some("VPBT")),
    }
}

fn way(src: &mut Src, f: Finish) -> u8 {
    let sized = match f {
        Finish::Sized(_) => SIZED,
        _ => 0,
    };
    src.below(WAYS) as u8 | sized
}

/// Created by the generated code: the value, its bytes.
fn built(c: &Case, src: &mut Src, cx: &mut Ctx) -> (Val, Vec<u8>, Finish) {
    let cfg = vcfg(src);
    let v = Gen::new(c.s, cfg).table(c.t, src, 0);
    let mut b = builder(c, src);
    let fin = finish(src);
    cx.describe(|| c.show(&format!("{:?}, {:?}", v, fin)));
    (c.glue().build)(&mut b, &v, fin);
    let bytes = b.finished_data().to_vec();
    (v, bytes, fin)
}

fn note(c: &Case, v: &Val, cx: &mut Ctx) {
    let set = v.tab().iter().any(|x| !x.absent());
    cx.label_if(v.tab().iter().any(|x| matches!(x, Val::Uni(_, Some(_)))), "union value");
    cx.label_if(v.tab().iter().any(|x| matches!(x, Val::Tab(_))), "table in a table");
    cx.label_if(v.tab().iter().any(|x| matches!(x, Val::List(l) if !l.is_empty())), "vector with elements");
    cx.label_if(v.tab().iter().any(|x| x.absent()), "something left out");
    cx.label_if(
        v.tab().iter().any(|x| match x {
            Val::Str(s) => s.len() >= 100,
            Val::List(l) => l.len() >= 100,
            _ => false,
        }),
        "long string or vector",
    );
    if set && c.interesting(which()) {
        cx.nontrivial(c.key(format!("{:?}", v).as_bytes()));
    }
}

fn same(c: &Case, want: &Got, got: &Got) -> Result<(), String> {
    if agree(want, got) {
        Ok(())
    } else {
        c.fail(difference(c.s, c.t, want, got))
    }
}

/// Created and read by the generated code.
fn create(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    let (v, bytes, fin) = built(&c, src, cx);
    let how = src.below(4) as u8;
    let way = way(src, fin);
    let got = (c.glue().read)(&bytes, &Lim::all(how), way);
    note(&c, &v, cx);
    same(&c, &expect(c.s, c.t, &v), &got)
}

/// Created by the generated code, read by the reference decoder.
fn wire(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    let (v, bytes, fin) = built(&c, src, cx);
    note(&c, &v, cx);
    // each field is where the schema puts it
    let vts: Vec<u16> = (0..c.glue().vts.len()).map(|i| 4 + 2 * i as u16).collect();
    if c.glue().vts != &vts[..] {
        return c.fail(format!("offsets of {}'s fields in a vtable: {:?}", c.table().name, c.glue().vts));
    }
    let doc = ToDoc::doc(c.s, c.t, &v, None);
    let h = Header {
        prefixed: matches!(fin, Finish::Sized(_)),
        ident: match fin {
            Finish::Ident(i) | Finish::Sized(Some(i)) => Some(i.as_bytes().try_into().unwrap()),
            Finish::Minimal | Finish::Sized(None) => None,
        },
    };
    let mut d = Strict::new(&bytes);
    let r = d
        .header(&h)
        .and_then(|p| d.object(&doc, doc.root, p))
        .and_then(|_| d.regions.check_alignment());
    match r {
        Ok(()) => Ok(()),
        Err(e) => c.fail(e),
    }
}

/// Written by the reference encoder, read by the generated code.
fn from_outside(c: &Case, src: &mut Src, cx: &mut Ctx, wild: Wild, few: bool) -> Result<Got, String> {
    let cfg = vcfg(src);
    let v = Gen::new(c.s, cfg).table(c.t, src, 0);
    let doc = ToDoc::doc(c.s, c.t, &v, Some((src, wild)));
    let h = Header {
        prefixed: false,
        ident: if src.chance(1, 8) { Some(*b"abcd") } else { None },
    };
    let enc = encode(&doc, src, h);
    let how = src.below(4) as u8;
    let way = src.below(WAYS) as u8;
    let (at_end, shift) = (src.flag(), src.below(9));
    cx.describe(|| c.show(&format!("{} in {}", doc.show(), show(&enc.bytes))));
    let (want, got) = read_both(c, &enc.bytes, how, way, few, at_end, shift);
    note(c, &v, cx);
    same(c, &want, &got)?;
    Ok(want)
}

fn show(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join("")
}

fn read_both(c: &Case, bytes: &[u8], how: u8, way: u8, few: bool, at_end: bool, shift: usize) -> (Got, Got) {
    with_guarded(bytes, at_end, shift, |b| {
        let lim = || if few { Lim::few(how) } else { Lim::all(how) };
        let l = lim();
        let want = SRead {
            s: c.s,
            r: RefReader { buf: b, few },
            lim: &l,
        }
        .root(c.t);
        let got = (c.glue().read)(b, &lim(), way);
        (want, got)
    })
}

fn foreign(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    from_outside(&c, src, cx, Wild::default(), false).map(|_| ())
}

fn tally(g: &Got, out: &mut [usize; 3]) {
    match g {
        Got::Err(e, _) => out[if e & E_REQUIRED != 0 { 1 } else { 2 }] += 1,
        Got::Tab(v) | Got::Vec(_, v) => v.iter().for_each(|x| tally(x, out)),
        Got::Uni(_, _, x) => tally(x, out),
        _ => out[0] += 1,
    }
}

fn dropped(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    let drop = *src.pick(&[2, 5, 12]);
    let w = Wild {
        drop,
        ..Wild::default()
    };
    let g = from_outside(&c, src, cx, w, false)?;
    let mut n = [0; 3];
    tally(&g, &mut n);
    cx.label_if(n[1] > 0, "required field missing");
    Ok(())
}

/// A builder that is finished without any field.
fn bare(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    let way = src.below(WAYS) as u8;
    let how = src.below(4) as u8;
    // what is in the buffer already
    let cap = src.below(100);
    let first = src.draw(4);
    cx.describe(|| c.show("nothing"));
    let must = c.table().fields.iter().any(|f| f.required);
    let r = vpbt::run::catch(|| {
        let mut b = FlatBufferBuilder::new_with_capacity(cap);
        for i in 0..first {
            b.create_string(&"x".repeat(i as usize));
        }
        (c.glue().bare)(&mut b);
        b.finished_data().to_vec()
    });
    cx.nontrivial(c.key(&[way, cap as u8, first as u8]));
    match r {
        Err(_) if must => {
            cx.label("refused");
            Ok(())
        }
        Err(e) => c.fail(format!("an empty {} cannot be built: {}", c.table().name, e)),
        Ok(_) if must => c.fail(format!("a {} was built without its required fields", c.table().name)),
        Ok(bytes) => {
            let (want, got) = read_both(&c, &bytes, how, way, false, true, 0);
            same(&c, &want, &got)
        }
    }
}

fn unknown_enums(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    let enums = *src.pick(&[2, 8, 14]);
    let w = Wild {
        enums,
        drop: 1,
        ..Wild::default()
    };
    let g = from_outside(&c, src, cx, w, false)?;
    let mut n = [0; 3];
    tally(&g, &mut n);
    cx.label_if(n[2] > 0, "unknown number");
    Ok(())
}

fn unknown_types(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    let types = *src.pick(&[0, 2, 8, 14]);
    let w = Wild {
        types,
        drop: 2,
        ..Wild::default()
    };
    // a table may be read as another one
    let g = from_outside(&c, src, cx, w, true)?;
    let mut n = [0; 3];
    tally(&g, &mut n);
    cx.label_if(n[2] > 0, "unknown or wrong type");
    Ok(())
}

// ------------------------------------------------------------------- enums

fn one_enum(c: &Case, what: &str, g: &EnumGlue, base: Sc, names: &[String], bits: &[u64], src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let k = src.below(names.len());
    let n = base.size();
    let fail = |m: String| c.fail::<()>(format!("{}: {}", what, m));
    // a known number
    if (g.number)(k) != bits[k] {
        return fail(format!("{} is {:#x}", names[k], (g.number)(k)));
    }
    let name = (g.name)(k);
    if name != names[k] && name != fix(&names[k]) {
        return fail(format!("the name of {} is {:?}", names[k], name));
    }
    if (g.default)() != 0 {
        return fail(format!("the default is {}", names[(g.default)()]));
    }
    if g.size != n {
        return fail(format!("takes {} bytes", g.size));
    }
    // any number
    let b = base.norm(match src.below(5) {
        0 => bits[k],
        1 => bits[k].wrapping_add(1),
        2 => bits[k].wrapping_sub(1),
        3 => bits[k].wrapping_add(1 << (8 * src.below(n))),
        _ => src.bits(),
    });
    cx.describe(|| format!("{} {:#x} of\n{}", what, b, c.s.text()));
    let want = bits.iter().position(|x| *x == b);
    let ok = |r: &Result<usize, Got>| match (r, want) {
        (Ok(i), Some(j)) => *i == j,
        (Err(e), None) => *e == Got::Err(E_ENUM, None),
        _ => false,
    };
    let r = (g.from)(b);
    if !ok(&r) {
        return fail(format!("{:#x} converts to {:?}", b, r));
    }
    // in bytes
    let lead = src.below(10);
    let trail = src.below(10);
    let mut buf = src.bytes(lead);
    buf.extend_from_slice(&b.to_le_bytes()[..n]);
    buf.extend(src.bytes(trail));
    let (at_end, shift) = (src.flag(), src.below(9));
    let r = with_guarded(&buf, at_end, shift, |buf| (g.follow)(buf, lead));
    if !ok(&r) {
        return fail(format!("{:#x} is read as {:?}", b, r));
    }
    let cut = src.below(n);
    let r = with_guarded(&buf[..lead + cut], at_end, shift, |buf| (g.follow)(buf, lead));
    if r != Err(Got::Err(E_OOB, None)) {
        return fail(format!("read from {} bytes of {} as {:?}", cut, n, r));
    }
    let mut out = src.bytes(n);
    (g.push)(k, &mut out);
    if out[..] != bits[k].to_le_bytes()[..n] {
        return fail(format!("{} is written as {:?}", names[k], out));
    }
    cx.label(if want.is_some() { "known number" } else { "unknown number" });
    cx.nontrivial(mix(c.key(what.as_bytes()), mix(b, k as u64)));
    Ok(())
}

fn numbers(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    if c.s.enums.is_empty() {
        return Ok(());
    }
    let i = src.below(c.s.enums.len());
    let e = &c.s.enums[i];
    let names: Vec<String> = e.vars.iter().map(|v| v.name.clone()).collect();
    one_enum(&c, &format!("enum {}", e.name), &c.g.enums[i], e.base, &names, &e.bits(), src, cx)
}

fn companions(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    if c.s.unions.is_empty() {
        return Ok(());
    }
    let i = src.below(c.s.unions.len());
    let u = &c.s.unions[i];
    let names: Vec<String> = std::iter::once("None".to_string())
        .chain(u.vars.iter().map(|t| c.s.tables[*t].name.clone()))
        .collect();
    let bits: Vec<u64> = std::iter::once(0).chain(u.numbers().iter().map(|x| *x as u64)).collect();
    one_enum(&c, &format!("type of union {}", u.name), &c.g.unions[i], Sc::U8, &names, &bits, src, cx)
}

// --------------------------------------------------------------- evolution

fn differs(old: &Schema, new: &Schema, t: usize) -> bool {
    old.tables[t].fields.len() != new.tables[t].fields.len()
        || new.tables[t].fields.iter().any(|f| match &f.ty {
            Ty::Enum(e) => old.enums[*e].vars.len() != new.enums[*e].vars.len(),
            Ty::Union(u) => old.unions[*u].vars.len() != new.unions[*u].vars.len(),
            _ => false,
        })
}

fn versions(src: &mut Src) -> (Case, Case) {
    let k = src.below(world().schemas.len());
    let t = src.below(world().schemas[k][0].tables.len());
    let c = |v: usize| {
        let (s, g) = version(k, v);
        Case { at: (k, v), s, g, t }
    };
    (c(0), c(1))
}

/// What a reader of the old version makes of what one of the new version reads.
fn narrow(old: &Schema, new: &Schema, t: usize, g: &Got) -> Got {
    let Got::Tab(v) = g else { return g.clone() };
    let slots = new.slots(t);
    let mut out = vec![];
    for (i, f) in old.tables[t].fields.iter().enumerate() {
        let at = slots[i] as usize;
        if let Ty::Union(u) = &f.ty {
            let known: Vec<u64> = old.unions[*u].numbers().iter().map(|x| *x as u64).collect();
            let alien = matches!(&v[at - 1], Got::Sc(n) if *n != 0 && !known.contains(n));
            if alien {
                out.push(Got::Err(E_ENUM, None));
                out.push(Got::Err(E_ENUM, None));
                continue;
            }
            out.push(v[at - 1].clone());
        }
        out.push(narrow_ty(old, new, &f.ty, &v[at]));
    }
    Got::Tab(out)
}

fn narrow_ty(old: &Schema, new: &Schema, ty: &Ty, g: &Got) -> Got {
    match (ty, g) {
        (Ty::Enum(e), Got::Sc(n)) if !old.enums[*e].bits().contains(n) => Got::Err(E_ENUM, None),
        (Ty::Table(t), g) => narrow(old, new, *t, g),
        (Ty::Vec(e), Got::Vec(n, v)) => Got::Vec(*n, v.iter().map(|x| narrow_ty(old, new, e, x)).collect()),
        (Ty::Union(u), Got::Uni(k, n, x)) => Got::Uni(*k, *n, Box::new(narrow(old, new, new.unions[*u].vars[*k], x))),
        (_, g) => g.clone(),
    }
}

/// What a reader of the new version makes of what one of the old version reads.
fn widen(old: &Schema, new: &Schema, t: usize, g: &Got) -> Got {
    let Got::Tab(v) = g else { return g.clone() };
    let mut out = vec![];
    let mut at = 0;
    for (i, f) in new.tables[t].fields.iter().enumerate() {
        if i >= old.tables[t].fields.len() {
            if let Ty::Union(_) = f.ty {
                out.push(Got::Absent);
            }
            out.push(match new.read_default(f) {
                Some(d) => Got::Sc(d),
                None => Got::Absent,
            });
            continue;
        }
        if let Ty::Union(_) = f.ty {
            out.push(v[at].clone());
            at += 1;
        }
        out.push(widen_ty(old, new, &f.ty, &v[at]));
        at += 1;
    }
    Got::Tab(out)
}

fn widen_ty(old: &Schema, new: &Schema, ty: &Ty, g: &Got) -> Got {
    match (ty, g) {
        (Ty::Table(t), g) => widen(old, new, *t, g),
        (Ty::Vec(e), Got::Vec(n, v)) => Got::Vec(*n, v.iter().map(|x| widen_ty(old, new, e, x)).collect()),
        (Ty::Union(u), Got::Uni(k, n, x)) => Got::Uni(*k, *n, Box::new(widen(old, new, new.unions[*u].vars[*k], x))),
        (_, g) => g.clone(),
    }
}

fn note_pair(old: &Case, new: &Case, v: &Val, cx: &mut Ctx) {
    if differs(old.s, new.s, old.t) {
        cx.nontrivial(old.key(format!("{:?}", v).as_bytes()));
        cx.label_if(old.table().fields.len() != new.table().fields.len(), "fields added");
    }
}

fn pair_fail(old: &Case, new: &Case, m: String) -> Result<(), String> {
    Err(format!("{}\nold schema:\n{}\nnew schema:\n{}", m, old.s.text(), new.s.text()))
}

/// Old code reads what new code wrote.
fn new_to_old(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (old, new) = versions(src);
    let (v, bytes, fin) = built(&new, src, cx);
    let how = src.below(4) as u8;
    let way = way(src, fin);
    let got = (old.glue().read)(&bytes, &Lim::all(how), way);
    let want = narrow(old.s, new.s, old.t, &expect(new.s, new.t, &v));
    note_pair(&old, &new, &v, cx);
    let mut n = [0; 3];
    tally(&want, &mut n);
    cx.label_if(n[2] > 0, "variant the old code does not know");
    if !agree(&want, &got) {
        return pair_fail(&old, &new, difference(old.s, old.t, &want, &got));
    }
    Ok(())
}

/// New code reads what old code wrote.
fn old_to_new(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (old, new) = versions(src);
    let (v, bytes, fin) = built(&old, src, cx);
    let how = src.below(4) as u8;
    let way = way(src, fin);
    let got = (new.glue().read)(&bytes, &Lim::all(how), way);
    let want = widen(old.s, new.s, old.t, &expect(old.s, old.t, &v));
    note_pair(&old, &new, &v, cx);
    if !agree(&want, &got) {
        return pair_fail(&old, &new, difference(new.s, new.t, &want, &got));
    }
    Ok(())
}

/// Both versions read what someone else wrote by either.
fn across_foreign(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let (old, new) = versions(src);
    let w = if src.flag() { &old } else { &new };
    let cfg = vcfg(src);
    let v = Gen::new(w.s, cfg).table(w.t, src, 0);
    let wild = Wild {
        drop: *src.pick(&[0, 2]),
        ..Wild::default()
    };
    let doc = ToDoc::doc(w.s, w.t, &v, Some((src, wild)));
    let enc = encode(&doc, src, Header::default());
    let how = src.below(4) as u8;
    let way = src.below(WAYS) as u8;
    cx.describe(|| w.show(&format!("{} in {}", doc.show(), show(&enc.bytes))));
    note_pair(&old, &new, &v, cx);
    for c in [&old, &new] {
        let (want, got) = read_both(c, &enc.bytes, how, way, false, true, 0);
        if !agree(&want, &got) {
            return pair_fail(&old, &new, difference(c.s, c.t, &want, &got));
        }
    }
    Ok(())
}

// --------------------------------------------------------- untrusted bytes

fn untrusted(c: &Case, bytes: &[u8], src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let how = src.below(4) as u8;
    // from a slice most of the time: there is a guard behind it
    let way = src.below(WAYS / 2) as u8 * 2 + src.chance(1, 5) as u8;
    let (at_end, shift) = (!src.chance(1, 4), src.below(9));
    let (want, got) = read_both(c, bytes, how, way, true, at_end, shift);
    let mut n = [0; 3];
    tally(&want, &mut n);
    cx.label_if(n[1] > 0, "required field missing");
    cx.label_if(n[2] > 0 && n[0] > 0, "values and errors");
    cx.label_if(n[2] == 0, "no errors");
    cx.label_if(matches!(want, Got::Err(..)), "no root");
    if n[2] > 0 && !matches!(want, Got::Err(..)) {
        cx.nontrivial(c.key(bytes));
    }
    same(c, &want, &got)
}

fn damaged(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    let mut cfg = vcfg(src);
    cfg.depth = cfg.depth.min(3);
    cfg.max_list = 12;
    let g = Gen::new(c.s, cfg);
    g.fuel.set(40);
    let v = g.table(c.t, src, 0);
    let wild = Wild {
        drop: *src.pick(&[0, 0, 2]),
        enums: *src.pick(&[0, 0, 2]),
        types: *src.pick(&[0, 0, 2]),
    };
    let doc = ToDoc::doc(c.s, c.t, &v, Some((src, wild)));
    let mut enc = encode(&doc, src, Header::default());
    let what = damage(&mut enc, src);
    if cfg.long > 0 && !enc.bytes.is_empty() {
        for _ in 0..src.below(4) {
            let at = src.below(enc.bytes.len());
            enc.bytes[at] = *src.pick(&[0xff, 0x80, 0, 2]);
        }
    }
    // read as this table or another one
    let mut c = c;
    if src.chance(1, 8) {
        c.t = src.below(c.s.tables.len());
    }
    cx.describe(|| c.show(&format!("{:?}: {}", what, show(&enc.bytes))));
    untrusted(&c, &enc.bytes, src, cx)
}

fn random(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    let c = pick(src);
    let n = src.range(0, 160);
    let mode = src.below(3);
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(match mode {
            0 => src.draw(16) as u8,
            1 => *src.pick(&[0u8, 0, 0, 1, 4, 8, 12, 0xff, 0x80]),
            _ => src.draw(256) as u8,
        });
    }
    if n >= 4 && src.chance(3, 4) {
        let v = src.draw(n as u64) as u32;
        b[..4].copy_from_slice(&v.to_le_bytes());
        let v = v as usize;
        if v + 4 <= n && v >= 4 && src.chance(3, 4) {
            let s = (v as i64 - src.draw(n as u64) as i64) as i32;
            b[v..v + 4].copy_from_slice(&s.to_le_bytes());
        }
    }
    cx.describe(|| c.show(&show(&b)));
    untrusted(&c, &b, src, cx)
}
