AST = ["butte-build/src/ast/parser.rs", "butte-build/src/ast/parser_macros.rs", "butte-build/src/ast/types.rs"]
IR = ["butte-build/src/ir/transform.rs", "butte-build/src/ir/types.rs", "butte-build/src/ir/keywords.rs"]
CG = ["butte-build/src/codegen.rs"]
CO = ["butte-build/src/compile.rs", "butte-build/src/lib.rs", "butte-build/src/main.rs"]
GT = "The compiler's tests cover its grammar rules and a few small schemas by example; "

prop("C12", "The parser accepts exactly the schema language and keeps every part of it",
     "For every schema text, parsing succeeds exactly if the text belongs to the schema language, and the syntax tree then holds every declaration, field, value, attribute, piece of metadata and documentation line, in order and as written. White space and comments between tokens never change the result. A text that does not belong to the language is reported as an error, and no part of it is silently dropped.",
     ["inputs"], "for every syntax tree, every way to write it down and every small edit of the text",
     GT + "the language has unboundedly many texts and every pair of adjacent tokens can be separated in many ways.",
     AST, [("nom combinators, one per rule", "butte-build/src/ast/parser.rs"), ("white space and comments", "butte-build/src/ast/parser.rs")],
     ["ast::parser::schema_parser, ast::types::Schema"],
     technique="property-based testing: print/parse round trip and differential against a reference parser",
     level_note="Texts of up to a few hundred tokens with random layout, comments and documentation; edits of up to three tokens. The reference grammar is hand-written.")

prop("C13", "Literals mean what they say",
     "Every integer literal (decimal or hexadecimal, signed), floating point literal (decimal or hexadecimal, with or without exponent, nan and infinities), boolean and string literal of the schema language is read as exactly the value it denotes, floats correctly rounded. A number that the target cannot hold or a text that only resembles a literal is an error, never another value.",
     ["inputs"], "for every literal and near-literal",
     GT + "each kind of literal has endless spellings, and rounding and range errors occur only for particular values.",
     AST, [("number and string rules", "butte-build/src/ast/parser.rs")], ["ast::types of constants in metadata, defaults and enum values"],
     technique="property-based testing against an independent evaluator of literals",
     level_note="All spellings of the grammar, biased to limits, halfway cases and odd forms.")

prop("C14", "The compiler never panics, whatever it is given",
     "Given arbitrary bytes as a schema, any well-formed tree of declarations however meaningless, or an input or output that fails at any point, the compiler ends with success or an error. It never panics and never hangs, an error from the input or the output is reported as such, and success means that the whole result was written.",
     ["inputs", "fault_sequences", "crash_points"], "for every byte string, every schema and every point at which reading or writing fails",
     GT + "none feeds it damaged or meaningless input or failing files.",
     AST + IR + CG + CO, [("error paths of parser, transformation and generator", "butte-build/src"), ("reading and writing", "butte-build/src/compile.rs")],
     ["compile_fbs_generic"],
     technique="fuzzing (mutated, grammar-based and random inputs) with injected I/O faults",
     level_note="In-process, with panics caught and hangs bounded. Two open findings: extremely deep nesting, and letters Rust does not allow in names.")

prop("C15", "Every name in a schema refers to the right declaration, or is an error",
     "Every reference to a type, in fields, vectors, union variants, root types, enum defaults and service methods, is resolved to the declaration the schema language's scoping gives it, whatever the order of declarations and however namespaces nest or repeat. The generated code uses exactly that type by a path that is right from where it stands. A reference to nothing or to the wrong kind of declaration, a second declaration of the same type name and a default value that its field cannot hold are errors.",
     ["inputs"], "for every graph of declarations, every order of them and every arrangement in namespaces",
     GT + "resolution depends on the order of declarations, on cycles between them and on where they stand.",
     IR + CG, [("deferred resolution", "butte-build/src/ir/transform.rs"), ("relative paths", "butte-build/src/codegen.rs")],
     ["generated code, errors of compile_fbs_generic"],
     technique="property-based testing: generated code checked against the schema's own resolution, reordering as metamorphic relation",
     level_note="Up to a dozen declarations in up to four namespaces, recursive in every way allowed. Partly by parsing generated code, partly by handing it to rustc with the expected types.")

prop("C16", "Every valid schema gives Rust code that compiles",
     "For every valid schema the generated module compiles in a crate that depends on butte, whatever the names (including Rust keywords and names that generated code uses itself), default values, nesting of types and namespaces. It offers for each declaration the items, methods, arguments and types that its schema says: an accessor per field, optional exactly if the field may be absent, an arguments struct, a create function, an enum or union with all variants.",
     ["inputs"], "for every valid schema",
     GT + "compilation of the output is tried for about ten fixed schemas; name clashes, paths and types go wrong for particular combinations.",
     CG + IR, [("generation of items", "butte-build/src/codegen.rs"), ("renaming of keywords", "butte-build/src/ir/keywords.rs")],
     ["rustc on generated code plus code that uses all of it"],
     technique="property-based testing: random schemas, output compiled with typed glue code",
     level_note="Names that clash after conversion to Rust's conventions are outside the domain (DESIGN.md); seven reserved names and vectors of unions are open findings.")

prop("C17", "Generated code reads back exactly what it wrote, in the standard format",
     "For every schema and every value of any of its tables, creating the table with the generated code and reading it with the generated accessors gives the value back, field for field at every depth. The buffer is the standard FlatBuffers encoding with each field in the slot that its position in the schema assigns, and the accessors read any other writer's encoding of the value as well.",
     ["inputs", "programs"], "for every schema, table, value, builder state and layout",
     GT + "the examples create and read two or three fixed values of fixed schemas.",
     CG + RT, [("create functions and builders", "butte-build/src/codegen.rs"), ("accessors and slot numbers", "butte-build/src/codegen.rs")],
     ["generated create, accessors, get_root; finished_data"],
     technique="property-based testing: random schemas compiled, random values, round trip and reference encoder/decoder",
     level_note="600 random schemas per quick run, all compiled into one program, with some hundred thousand values.")

prop("C18", "Defaults are not stored, read back when absent, and are what the schema says",
     "A scalar field, or an enum field with a stated default, that holds its default takes no space in the buffer and reads as that default; if it is absent, whoever wrote the buffer, it reads as the default the schema states, or zero; any other value is stored and read as such, also one stored explicitly although equal to the default. An enum field without a stated default has none: it is always stored, and reads as absent when it is. Arguments not given by the caller have the schema's defaults, without one zero or the enum's first variant.",
     ["inputs"], "for every scalar and enum type, default and value",
     GT + "few defaults are tried, none of them at a limit or infinite.",
     CG + IR, [("default values in add methods, accessors and arguments", "butte-build/src/codegen.rs"), ("default values in the tree", "butte-build/src/ir/transform.rs")],
     ["generated Args::default, create, accessors; vtables in finished_data"],
     technique="property-based testing: random schemas rich in defaults, compiled; reference encoder/decoder",
     level_note="Every scalar type, limits and special floats included. -0.0 counts as equal to 0.0, as in the format's other implementations.")

prop("C19", "Required fields are always there, and reported by name when they are not",
     "A required field is part of every table the generated code creates, even with its default value; finishing a table without one panics, in debug and release builds alike. Its accessor returns the value itself instead of an option. Reading a table in which the field is missing is an error that names the field if the field has no default, and the other fields of that table are still readable.",
     ["inputs", "fault_sequences"], "for every schema with required fields, and every subset of fields missing from a buffer",
     GT + "no test reads a buffer without a required field.",
     CG, [("required accessors and arguments", "butte-build/src/codegen.rs")],
     ["generated Args, create, accessors; Error::RequiredFieldMissing"],
     technique="property-based testing: random schemas rich in required fields, documents with fields removed by a reference encoder",
     level_note="Scalar, enum, string, vector, table and union fields, at any depth.")

prop("C20", "Enums keep their numbers, and unknown numbers are errors",
     "Each variant of an enum has the number the schema gives it, or one more than the variant before it; conversion to and from the number, its name, its default (the first variant) and its encoding of the declared size all agree. A number without variant is an error when converted or read, in a field or in a vector, and affects nothing else.",
     ["inputs"], "for every enum, underlying type and number",
     GT + "no test reads an unknown number or uses anything but the smallest enums.",
     CG + IR, [("enum generation", "butte-build/src/codegen.rs"), ("assignment of numbers", "butte-build/src/ir/transform.rs")],
     ["TryFrom, From, Follow, Push, Default, enum_name_*; accessors"],
     technique="property-based testing: random enums compiled, exhaustive around the limits, reference encoder",
     level_note="All eight integer types, up to ninety variants, negative and explicit numbers.")

prop("C21", "Unions return the variant that was stored, or say that there is none",
     "A union field returns the variant that was stored, with its table's value, and its companion field returns the matching type number as the schema assigns it. A missing value or a type of none is no value, or an error naming the field if it is required, and an unknown type number is an error. Type and value are never mixed up between fields or variants.",
     ["inputs", "fault_sequences"], "for every union, variant, type number and combination of missing parts",
     GT + "one union with two variants is tried; no buffer with inconsistent type and value is.",
     CG + IR, [("union accessors and companion enums", "butte-build/src/codegen.rs"), ("companion fields", "butte-build/src/ir/transform.rs")],
     ["generated union accessors, get_type, companion fields"],
     technique="property-based testing: random unions compiled, documents with arbitrary types, reference reader",
     level_note="Recursive unions, explicit type numbers, up to seven variants.")

prop("C22", "Old and new versions of a schema read each other's buffers",
     "When a schema evolves as FlatBuffers allows (fields appended to tables, variants appended to enums and unions, declarations added, renamed or reordered), code generated from either version reads buffers written with the other: common fields have the same values, fields the writer did not know read as absent or default, fields the reader does not know are ignored, and a variant the reader does not know is an error in that field only.",
     ["inputs", "programs", "configurations"], "for every pair of versions and every value written with either",
     GT + "no test involves two versions of a schema.",
     CG + IR, [("slot numbers by position", "butte-build/src/codegen.rs"), ("numbers of variants", "butte-build/src/ir/transform.rs")],
     ["generated code of both versions on each other's buffers"],
     technique="property-based testing: pairs of schema versions compiled, cross-version differential against a projection",
     level_note="450 pairs per quick run.")

prop("C23", "Generated readers survive any bytes",
     "Whatever bytes are given to the generated code of whatever schema, each accessor returns the value that the bytes encode there or an error of the right kind, never panics and never reads outside the buffer. A damaged field does not affect the reading of the others.",
     ["inputs", "fault_sequences"], "for every schema, every table of it and every byte string",
     GT + "none reads a damaged buffer through generated code.",
     CG + RT, [("accessors", "butte-build/src/codegen.rs"), ("checked reads", "butte/src/table.rs, butte/src/primitives.rs")],
     ["generated get_root and accessors on guarded memory"],
     technique="structured fuzzing of generated readers against a reference reader driven by the schema, guard pages",
     level_note="600 random schemas; structure-aware damage and random bytes.")

prop("C24", "Service generators see every service as declared",
     "A service generator given to the compiler is called for every service of the schema, once, with its qualified name, its documentation, and its methods in order, each with name, documentation, resolved request and response types, and streaming mode; what it writes appears in the generated code, in the module of the service's namespace. Services change nothing else in the generated code.",
     ["inputs"], "for every set of services, methods, metadata and namespaces",
     GT + "no test involves a service generator.",
     IR + CG + ["butte-build/src/compile.rs"], [("transformation of services", "butte-build/src/ir/transform.rs"), ("calls of the generator", "butte-build/src/codegen.rs")],
     ["codegen::RpcGenerator::generate"],
     technique="property-based testing with a recording generator",
     level_note="Services in any namespace with up to four methods each.")

prop("C25", "All ways to run the compiler give the same code, every time",
     "The compiler's output depends on the schema alone: repeated runs, the library call, the build-script function and the command line tool give the same code, byte for byte or, where it is formatted, as tokens. Errors are reported as such in each of them: the tool ends with a failure status, the build-script function returns the error, and neither reports success with incomplete output.",
     ["inputs", "configurations", "fault_sequences"], "for every schema, valid or not, and every way to run the compiler",
     GT + "none compares two runs or uses the command line tool.",
     CO + IR + CG, [("hash-free ordering of declarations", "butte-build/src/ir/transform.rs"), ("formatting", "butte-build/src/compile.rs"), ("command line", "butte-build/src/main.rs")],
     ["compile_fbs, compile_fbs_generic, the butte binary"],
     technique="property-based differential testing between runs and entry points",
     level_note="The tool and the build-script function run in scratch directories.")

prop("C26", "Documentation comments reach the code they document",
     "Every documentation line of a schema becomes a documentation line of the generated item it stands before (table, field accessor, enum, variant, union, union variant), unchanged and in order, and no other item gets it. Plain comments never become documentation, and documentation never changes the rest of the generated code. A default value that the code's own documentation states is the field's default.",
     ["inputs"], "for every assignment of documentation to declarations and every content of a line",
     GT + "documentation is tried for a few fixed lines.",
     AST + IR + CG, [("documentation in parser and tree", "butte-build/src/ast/parser.rs"), ("doc attributes", "butte-build/src/codegen.rs")],
     ["doc attributes of generated items"],
     technique="property-based testing: documentation generated, output parsed, metamorphic comparison without documentation",
     level_note="Any characters but line breaks. One open finding: rustfmt turns lines starting with a slash into plain comments.")
