//! C16: generated code compiles; C15: with the types the schema names.

use crate::resolve;
use crate::rust::*;
use model::schema::*;
use vpbt::{Ctx, Src};

fn batch(src: &mut Src, cx: &mut Ctx, cfg: fn(&mut Src) -> Cfg) -> Result<(), String> {
    let n = src.range(1, 5);
    let mut ss = vec![];
    for _ in 0..n {
        let c = cfg(src);
        ss.push(Schema::gen(src, &c));
    }
    let text: Vec<String> = ss.iter().map(|s| s.text()).collect();
    cx.describe(|| crate::comp::clip(&text.join("// ----\n")));
    all_compile(&ss)?;
    for s in &ss {
        cx.label_if(s.spaces.len() > 1, "namespaces");
        cx.label_if(!s.unions.is_empty(), "unions");
        cx.label_if(!s.enums.is_empty(), "enums");
        cx.label_if(s.tables.iter().any(|t| t.fields.iter().any(|f| f.required)), "required fields");
    }
    cx.nontrivial_bytes(text.join("").as_bytes());
    Ok(())
}

fn any(src: &mut Src) -> Cfg {
    let mut c = Cfg {
        tables: src.range(1, 6),
        fields: src.range(1, 9),
        rpcs: 1,
        required: *src.pick(&[0, 1, 4]),
        ..Cfg::default()
    };
    for w in &mut c.types {
        if src.chance(1, 4) {
            *w *= 4;
        }
    }
    c
}

pub fn c16(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    batch(src, cx, any)
}

pub fn c15_types(src: &mut Src, cx: &mut Ctx) -> Result<(), String> {
    batch(src, cx, resolve::cfg)
}

fn text_compiles(text: &str) -> Result<(), String> {
    let code = crate::comp::must(text)?;
    let dir = Dir::new();
    compiles(&format!("pub mod s {{\n{}\n}}\n", code), &dir.0)
}

/// Known findings: names that the generated code itself uses.
pub fn type_b() -> Result<(), String> {
    text_compiles("table B { x: int; } table C { b: B; }")
}
pub fn type_option() -> Result<(), String> {
    text_compiles("table Option { x: int; }")?;
    text_compiles("table Result { x: int; }")
}
pub fn type_default() -> Result<(), String> {
    text_compiles("enum Default : byte { A }")?;
    text_compiles("enum From : byte { A }")
}
pub fn type_primitive() -> Result<(), String> {
    text_compiles("table u8 { x: ubyte; }")
}
pub fn field_create() -> Result<(), String> {
    text_compiles("table A { create: int; }")?;
    text_compiles("table A { get_root: int; }")
}
pub fn union_vector() -> Result<(), String> {
    text_compiles("table A { } union U { A } table C { us: [U]; }")
}
