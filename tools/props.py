#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, level_note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], state=state or [], level_note=level_note, technique=technique))

RT = ["butte/src/builder.rs", "butte/src/table.rs", "butte/src/vtable.rs", "butte/src/vector.rs",
      "butte/src/primitives.rs", "butte/src/endian_scalar.rs", "butte/src/push.rs"]
NO_RT_TESTS = "The runtime crate has no tests of its own; the examples build and read two or three fixed buffers. "

prop("C01", "Everything built with the builder is read back exactly",
     "Any document assembled with the buffer builder out of tables, strings, byte strings, vectors and shared sub-objects, in any legal order of calls, at any initial capacity and finished in any of the four ways, is read back through the readers with every stored value, every length and every element equal to what was written. A field that was never set reads as absent, or as the default the reader asks for. A scalar equal to the default it was added with reads back as that default.",
     ["inputs", "programs"], "for every document, every order of fields, every equivalent choice of builder calls, every initial capacity",
     NO_RT_TESTS + "The guarantee is over all documents and call sequences, including buffers that grow in the middle of an object.",
     RT, [("builder growth and downward writing", "butte/src/builder.rs"), ("field lookup through the vtable", "butte/src/table.rs, butte/src/vtable.rs"), ("following of offsets, strings and vectors", "butte/src/primitives.rs, butte/src/vector.rs")],
     ["finished_data, get_root, Table::get, Vector"],
     technique="property-based round-trip testing (model documents, shrinking)",
     level_note="Random documents of up to 60 objects (sharing, nested vectors, slots up to 32764, up to a few 100 kB), in a debug and a release build. Trusts the document model; nothing about documents near the 2 GB limit except C10.")

prop("C02", "Finished buffers conform to the FlatBuffers wire format",
     "Every finished buffer is a well-formed FlatBuffers binary as an independent implementation reads it: little-endian scalars, relative 32-bit offsets that stay inside the buffer, vtables with the correct sizes and one 16-bit entry per slot with zero for absent fields and no trailing empty slots, length-prefixed vectors, and length-prefixed NUL-terminated UTF-8 strings. Decoding it by that specification gives back exactly the document that was written, and no two objects overlap.",
     ["inputs", "programs"], "for every document and sequence of builder calls",
     NO_RT_TESTS + "Nothing compares the bytes with the published format, so writer and reader could agree with each other and with nobody else.",
     RT, [("vtable writing", "butte/src/builder.rs"), ("object serialisation", "butte/src/push.rs, butte/src/primitives.rs")],
     ["bytes of finished_data"],
     technique="property-based testing against an independent strict decoder",
     level_note="The decoder is written from the FlatBuffers specification, not from this code; it is trusted. Little-endian host only.")

prop("C03", "Everything in a finished buffer is aligned",
     "In every finished buffer, each scalar field, offset, vtable, table and vector length lies at a multiple of its own size counted from the start of the buffer, and the elements of each vector lie at a multiple of their size. This holds with and without size prefix and file identifier.",
     ["inputs", "programs"], "for every document, finish variant and history of the builder",
     NO_RT_TESTS + "Misalignment is invisible to a reader that copies bytes, and depends on the sizes of everything written before.",
     RT, [("minimum alignment tracking and padding", "butte/src/builder.rs")],
     ["positions found by decoding finished_data"],
     technique="property-based testing, alignment invariant on decoded positions",
     level_note="Same documents as C02, judged on position only.")

prop("C04", "Any valid FlatBuffers buffer is readable, whoever wrote it",
     "The readers return the right values for every valid buffer, whatever layout its writer chose: any object order, vtables before or after their tables and shared or not, any padding and field order, vtables with trailing or missing slots, any position of the buffer in memory. The result is the same for every kind of buffer handed in (slice, vector, box, reference-counted).",
     ["inputs"], "for every document and every layout the format allows, at every address",
     NO_RT_TESTS + "Every existing test reads only buffers this builder wrote, which use one layout out of many.",
     ["butte/src/table.rs", "butte/src/vtable.rs", "butte/src/vector.rs", "butte/src/primitives.rs", "butte/src/endian_scalar.rs"],
     [("offset arithmetic", "butte/src/table.rs, butte/src/primitives.rs"), ("unaligned scalar reads", "butte/src/endian_scalar.rs")],
     ["get_root, get_size_prefixed_root, Table::get, Vector, slices"],
     technique="property-based testing with an independent randomising encoder",
     level_note="Layouts come from an independent encoder; buffers are placed at random addresses, against unreadable pages on either side.")

prop("C05", "Untrusted bytes never cause a panic, a crash or an invented value",
     "For arbitrary bytes and any requested type, the readers either return a value that really is encoded inside the given bytes at the place the format says, or an error that names the kind of problem (outside the buffer, not UTF-8, missing string terminator, misaligned slice, a byte that is no boolean in a slice of them). They never panic, never read outside the buffer, and a damaged part does not affect the reading of the others.",
     ["inputs", "fault_sequences"], "for every byte string, every type asked for and every corruption of a valid buffer",
     NO_RT_TESTS + "Hostile input is never tried; the space of corruptions is unbounded.",
     ["butte/src/table.rs", "butte/src/vtable.rs", "butte/src/vector.rs", "butte/src/primitives.rs", "butte/src/endian_scalar.rs", "butte/src/error.rs"],
     [("bounds-checked reads", "butte/src/endian_scalar.rs"), ("string validation", "butte/src/primitives.rs"), ("slice checks", "butte/src/vector.rs")],
     ["results of all readers on corrupted buffers"],
     technique="structured fuzzing against a lenient reference reader, guard pages",
     level_note="Differential against an independent reader; out-of-bounds reads fault on guard pages or give different values. Vector::get beyond the length is outside the domain (see DESIGN.md).")

prop("C06", "A builder's history and capacity never show in its output",
     "What a builder produces depends only on the calls since it was created or last reset: after any earlier use, including a build abandoned half-way, a reset builder produces byte for byte what a new one would. The same calls give the same bytes at every initial capacity, and a clone behaves like the original.",
     ["histories", "inputs", "configurations"], "for every history before a reset, every abandonment point and every initial capacity",
     NO_RT_TESTS + "Stale state only shows after particular histories (an unfinished table, an old vtable, a grown buffer).",
     ["butte/src/builder.rs"], [("reset", "butte/src/builder.rs"), ("growth", "butte/src/builder.rs")],
     ["finished_data, unfinished_data, num_written_vtables"],
     technique="stateful property-based testing, differential against a fresh builder",
     level_note="Histories of up to several documents, finished or abandoned at any point.")

prop("C07", "Equal vtables are stored once, different ones are never confused",
     "A buffer contains exactly one copy of each distinct vtable: tables with the same layout share it, and tables whose layouts differ never share one. The number of vtables the builder reports agrees with this at all times, also across resets.",
     ["inputs", "histories"], "for every sequence of tables",
     NO_RT_TESTS + "Deduplication errors need several tables with particular near-equal layouts.",
     ["butte/src/builder.rs", "butte/src/vtable.rs"], [("search for an existing vtable", "butte/src/builder.rs")],
     ["num_written_vtables; vtable positions in finished_data"],
     technique="property-based testing against a set-of-layouts model",
     level_note="Documents rich in tables with equal and nearly equal layouts.")

prop("C08", "Vectors behave like the list they encode",
     "A vector read from a buffer has the length, the elements and the order that were written, through indexing, slices and iterators alike. Its iterators obey the laws of an exact-size double-ended iterator under every interleaving of operations from both ends, including skipping beyond the end, and stay exhausted once exhausted.",
     ["inputs", "histories"], "for every vector and every sequence of iterator operations",
     NO_RT_TESTS + "Iterator bookkeeping breaks on particular interleavings of next, next_back, nth and nth_back.",
     ["butte/src/vector.rs"], [("iterator state", "butte/src/vector.rs")],
     ["Vector::get, len, iter, safe_slice, follow_cast_ref"],
     technique="model-based testing against a double-ended queue",
     level_note="Vectors of every scalar type, strings and tables; sequences of up to a few dozen operations.")

prop("C09", "Scalars are stored little-endian and survive unchanged at any address",
     "Writing any scalar and reading it back at the same place returns the same bit pattern, at every offset and alignment, touching only its own bytes, and the bytes are its little-endian encoding. A read that does not fit inside the buffer is an error. Booleans are one byte, zero for false.",
     ["inputs"], "for every scalar type, value, buffer and offset",
     NO_RT_TESTS + "Needs all types at all alignments, including NaN payloads and extreme values.",
     ["butte/src/endian_scalar.rs", "butte/src/push.rs", "butte/src/primitives.rs"], [("emplace and read", "butte/src/endian_scalar.rs")],
     ["emplace_scalar, read_scalar, read_scalar_at"],
     technique="property-based testing against byte arithmetic",
     level_note="All eleven scalar types, every offset of small random buffers. Little-endian host only.")

prop("C10", "Misuse of the builder is refused, legal use never is",
     "In builds with debug assertions, every call the construction protocol forbids (nesting tables, strings or vectors inside an unfinished one, ending or adding to a table or vector when none is under construction, using unfinished or finished data in the wrong state) panics, and no call it allows does. In all builds a required field that was not set makes the build panic, a capacity or a buffer above the format's 2 GB limit is refused, and the builder is usable again after a reset.",
     ["programs", "histories"], "for every sequence of builder calls",
     NO_RT_TESTS + "The protocol is a state machine; only sequences exercise it.",
     ["butte/src/builder.rs", "butte/src/vector.rs"], [("nesting and finished flags", "butte/src/builder.rs"), ("required", "butte/src/builder.rs")],
     ["panics of builder calls"],
     technique="stateful model-based testing of call sequences",
     level_note="Protocol refusals are debug assertions in this code base and are checked in the debug build only.")

prop("C11", "Root, size prefix and file identifier are found where they belong",
     "However a buffer is finished, its root is found by the matching reader, a size prefix equals the number of bytes that follow it, and a file identifier is recognised exactly when the buffer carries those four bytes in the identifier's place, with or without size prefix. A buffer too short to hold what is asked for is an error or a non-match, never a panic.",
     ["inputs", "configurations"], "for every document, finish variant, identifier and truncation",
     NO_RT_TESTS + "Four finish variants times documents of all sizes and alignments.",
     ["butte/src/builder.rs", "butte/src/table.rs", "butte/src/primitives.rs"], [("finish variants", "butte/src/builder.rs"), ("root and identifier readers", "butte/src/table.rs")],
     ["finish*, get_root, get_size_prefixed_root, buffer_has_identifier"],
     technique="property-based testing",
     level_note="Identifiers are any four bytes of valid UTF-8.")

exec(open(os.path.join(os.path.dirname(__file__), "props_gen.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), "props_gen.py")) else None

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./check.sh " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in P],
        "not_applicable": [],
        "notes": "No hooks: everything goes through public interfaces. ./check.sh ID --replay FILE runs a recorded case again."}, f, indent=1)
    f.write("\n")
