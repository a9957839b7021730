mod code;
mod comp;
mod det;
mod emit;
mod prepare;
mod resolve;
mod rust;
mod syntax;
mod total;

use vpbt::run::Known;
use vpbt::{Part, Prop};

fn part(name: &'static str, run: vpbt::run::CaseFn, quick: u64, thorough: u64) -> Part {
    Part {
        name,
        run,
        quick,
        thorough,
        debug_only: false,
    }
}

fn known(key: &'static str, run: fn() -> Result<(), String>) -> Known {
    Known { key, run }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "compile-fbs" {
        std::process::exit(det::compile_fbs_main(&a[2]));
    }
    if a.len() == 3 && a[1] == "replay-info" {
        std::process::exit(prepare::info(&a[2]));
    }
    if a.len() == 2 && a[1] == "externs" {
        std::process::exit(rust::externs_main());
    }
    if a.len() == 7 && a[1] == "prepare" && a[3] == "--out" && a[5] == "--verif" {
        vpbt::run::install_hook();
        std::process::exit(prepare::main(&a[2], a[4].as_ref(), a[6].as_ref()));
    }
    let mut props = vec![
        Prop {
            id: "C12",
            known: vec![],
            parts: vec![
                part("tree", syntax::c12_tree, 40_000, 2_000_000),
                part("edit", syntax::c12_edit, 60_000, 3_000_000),
            ],
            rule: "tree: at least two declarations and fifteen tokens; edit: at least one token edit. Distinct by text.",
            assumptions: &["the reference grammar in model/src/raw.rs is the FlatBuffers schema grammar as this project documents it"],
        },
        Prop {
            id: "C13",
            known: vec![],
            parts: vec![
                part("value", syntax::c13_value, 150_000, 6_000_000),
                part("not", syntax::c13_not, 100_000, 4_000_000),
            ],
            rule: "every case holds one literal or near-literal; distinct by text",
            assumptions: &["Rust's f64 formatting and parsing are correctly rounded"],
        },
        Prop {
            id: "C14",
            known: vec![known("deep-nesting", total::deep_nesting)],
            parts: vec![
                part("damaged", total::damaged, 20_000, 1_000_000),
                part("trees", total::random_trees, 20_000, 1_000_000),
                part("bytes", total::bytes, 20_000, 1_000_000),
                part("io", total::io_faults, 6_000, 300_000),
                part("junk", total::junk, 10_000, 500_000),
                part("names", total::wild_names, 20_000, 1_000_000),
            ],
            rule: "an input of more than twenty bytes, or a fault that the schema had to meet; distinct by text",
            assumptions: &["schemas nest types less than a thousand deep (KNOWN_FINDINGS.txt)"],
        },
        Prop {
            id: "C15",
            known: vec![],
            parts: vec![
                part("resolve", resolve::c15_resolve, 10_000, 500_000),
                part("errors", resolve::c15_errors, 20_000, 1_000_000),
                part("types", code::c15_types, 150, 10_000),
            ],
            rule: "at least one reference between declarations, or one planted mistake; distinct by text",
            assumptions: &[],
        },
        Prop {
            id: "C16",
            known: vec![
                known("type-b", code::type_b),
                known("type-option", code::type_option),
                known("type-default", code::type_default),
                known("type-primitive", code::type_primitive),
                known("field-create", code::field_create),
                known("union-vector", code::union_vector),
            ],
            parts: vec![part("compile", code::c16, 400, 30_000)],
            rule: "every case: one to five schemas whose code is compiled; distinct by text",
            assumptions: &["names that clash after conversion to Rust's conventions are outside the property (DESIGN.md)"],
        },
        Prop {
            id: "C24",
            known: vec![],
            parts: vec![part("services", resolve::c24, 10_000, 500_000)],
            rule: "at least one service; distinct by text",
            assumptions: &[],
        },
        Prop {
            id: "C25",
            known: vec![],
            parts: vec![
                part("repeat", det::repeat, 8_000, 400_000),
                part("format", det::format, 1_000, 30_000),
                part("tool", det::cli, 1_500, 30_000),
                part("build", det::build_script, 600, 15_000),
            ],
            rule: "a schema with at least three fields, or one that another way of running the compiler is given; distinct by text",
            assumptions: &["rustfmt keeps the meaning of the code it formats"],
        },
        Prop {
            id: "C26",
            known: vec![known("slash-doc", det::slash_doc)],
            parts: vec![
                part("plain", det::docs_plain, 15_000, 600_000),
                part("formatted", det::docs_formatted, 1_200, 30_000),
            ],
            rule: "at least two documented declarations; distinct by text",
            assumptions: &["rustfmt may remove blanks at the end of a documentation line"],
        },
    ];
    props.extend(prepare::props());
    vpbt::run::main(props);
}
