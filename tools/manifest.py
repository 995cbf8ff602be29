"""Writes MANIFEST.json from the list below (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: "
T = {
 "B01": (PBT + "stateful model-based generation (choice-sequence engine with shrinking) of Bytes histories against a plain slice model, debug and release builds",
         "400k generated histories per build in the quick tier; every operation's content compared with the model. No absence proof; 64-bit little-endian only."),
 "B02": (PBT + "stateful generation of Bytes histories under a checking global allocator with owner drop counters and ended borrows, plus generated multi-thread scripts",
         "Single-threaded histories are deterministic; thread scripts run on the real scheduler, so interleavings are sampled, not enumerated. Use-after-free is observed through fill patterns and quarantine of the checking allocator."),
 "B03": (PBT + "stateful generation of Bytes histories with a counting allocator as oracle",
         "Predictions compared with the allocations the operation really makes."),
 "B04": (PBT + "stateful generation of Bytes histories, exact model of which handles cover a whole Arc<[u8]>",
         "Success and failure both judged against the model; identity and reference counts checked."),
 "B05": (PBT + "generated pairs of handles compared with slices (Eq/Ord/Hash/Borrow/maps) and generated deserializer behaviours",
         "Serde is driven with hand-written deserializers covering every visit method and hostile size hints."),
 "B06": (PBT + "stateful generation of Bytes histories in a build with the stabby feature, half of the handles made from stabby containers (with spare capacity, empty, uniquely held or shared), against a slice model, reference counts, drop counters and an exact model of which handles cover their whole ArcSlice, under a checking allocator; generated thread scripts",
         "Sampled histories; debug and release builds of the stabby configuration."),
 "S01": (PBT + "generated C-string histories and borrowed inputs (NULs anywhere, spare capacity, invalid UTF-8) against an acceptance model and strlen, under a checking allocator",
         "Input space sampled; every conversion chain is checked against the model. Debug and release builds."),
 "S02": (PBT + "stateful generation of container conversion/mutation histories against std containers with element drop counters, under a checking allocator",
         "Six element types (zero-sized, plain, over-aligned, drop-counted); single-threaded histories plus generated thread hand-offs."),
 "C01": (PBT + "generated call sequences on closures of arities 0 to 9 and 36 signatures, through Rust and through the raw function pointers, against a pure reference function and a call log",
         "Signatures are a fixed table mixing integer, float, aggregate and pointer classes; values and call orders are generated."),
 "C02": (PBT + "stateful generation of clone/retain/release/call/drop histories with environment drop counters and reference counts, under a checking allocator; generated thread scripts",
         "Histories deterministic; thread scripts sampled on the real scheduler."),
 "D01": (PBT + "stateful generation of virtual-object histories over nine trait/bound combinations and five concrete types, against a state model and a method log, through Rust and through a C view of the vtable; foreign objects made by C code",
         "Traits are a fixed table (every receiver kind, aggregates, callbacks, pinned receivers); handles, owners, calls and values are generated."),
 "D02": (PBT + "stateful generation of virtual-object and drop-guard histories with live-object registry, drop counters and a checking allocator; generated threads",
         "Single-threaded histories deterministic; thread scripts sampled."),
 "F01": (PBT + "generated task trees (yields, events, foreign futures, spawn/await/detach, blocking work, panics) on a simulated executor whose decisions are generated, and on tokio; outcomes against a recursive model, drop and run counters, lost-wake-up detection",
         "The simulated executor is deterministic and covers eager, lazy, dropping, spurious and faulty behaviours; tokio schedules are sampled. Panics cross extern \"C\" frames, which the pinned 1.72.1 toolchain lets unwind."),
 "L01": (PBT + "generated bit patterns (legal and near-legal values of 130 types, field by field) judged by an independent predicate over bytes against is_valid / from_raw, plus exhaustive enumeration of all 1- and 2-byte types; round trips compare every significant byte",
         "Types are a fixed table covering every ReprC family; 8- and 16-bit types enumerated in full, wider ones sampled with boundary bias."),
 "L03": (PBT + "stateful generation of TaggedOption histories against Option with drop-counted payloads; generated out-pointer, niche-option and pointer-wrapper round trips under a checking allocator",
         "Value types are a fixed table; histories and values generated. Debug and release builds."),
 "E01": (PBT + "generated Rust programs (types, signatures, constants, documentation) compiled with rustc and called from generated C drivers built against the generated header; generated argument values, checksummed on both sides and echoed back, in debug and release builds",
         "Programs are random: 88 in the quick tier, 700 in the thorough one; every call compares all bytes that the type defines, on both sides of the boundary. gcc and clang as callers, x86_64 only."),
 "H01": (PBT + "generated Rust programs whose headers are compiled, alone and included twice, as C11 and C++17 by gcc and clang with warnings as errors, and whose prototypes are compared with the signatures through clang's AST",
         "Programs sampled. Doc comments, raw identifiers, name-space prefixes, renames and every type family are generated."),
 "H02": (PBT + "generated constants and enums; a generated C/C++ program and a cffi program print what the headers' definitions evaluate to, compared with the Rust values",
         "Boundary-biased values of every constant type, and enums of every representation with explicit discriminants. C# values are evaluated by a parser of this repository's own (no C# compiler here)."),
 "H03": (PBT + "generated Rust programs; sizes, offsets, kinds and marshalling of every type in the C# header (own structural parser and layout rules) and in the Python header (real cffi) compared with the Rust layout",
         "No C# compiler is available: C# text is judged by a parser that knows the subset of C# that may appear plus layout rules of sequential blittable structs."),
 "L02": (PBT + "generated Rust programs; sizes, alignments, field offsets and values with generated bytes compared between rustc and gcc/clang through the generated header",
         "Programs and values sampled; every byte of generated values is compared through field-wise C initialisers."),
 "N01": (PBT + "generated instances of opaque types over randomly nested Rust types (containers, tuples, slices, trait objects, function types, const generics, lifetimes, non-ASCII names) plus the types of generated programs; names validated, compiled and compared between runs",
         "Nesting up to depth 5; type names sampled."),
 "J01": (PBT + "generated sequences of calls from the real Node into an addon built from the tree (values of every type at and beyond its bounds, hostile values, strings and buffers of every kind, typed and mistyped pointers, object handles), judged by a model in JavaScript and by what the Rust functions logged, with a live-object count and a checking allocator; debug and release builds",
         "The binding code is the repository's, Node is real; the fork of napi-rs in between is not available offline and is replaced by an implementation of its API made for this check over Node-API, which passes the repository's JavaScript suite. The WebAssembly variant is not run."),
 "J02": (PBT + "generated callbacks of arities 0 to 6 called on Node's thread, on another thread or detached, and generated sets of pending promises, from the real Node, judged by a model in JavaScript; weak references and forced garbage collection show when callbacks are released; debug and release builds",
         "Thread schedules are sampled. napi-rs is replaced as for J01. Handles are released on Node's thread, as Node-API demands."),
 "R01": (PBT + "generated type expressions (up to depth 4) in eight positions, and generated declarations, compiled with rustc and judged by a model that says which of them have a C representation; a wrong verdict is shrunk to the smallest type that keeps it",
         "Types and declarations are sampled. Classes for which nothing is documented (opaque types by value in function pointers, pointer-sized enums, structs of PhantomData alone, ...) are left undecided and listed in DESIGN.md."),
 "R02": (PBT + "generated programs, accepted or refused by a model of threads, variance, loans and moves, compiled with rustc: differential Send/Sync/Copy/Clone and variance of nested types against the standard ones, captures of closures and virtual pointers, and chains of up to six views with an event (use, move, drop, overwrite, escape) at any link",
         "Programs are sampled; the model of loans covers straight-line code. The types of the `futures` feature are not covered."),
 "E02": (PBT + "generated exported functions (sync and async, renamed, every argument family) run generated trees of panics, catches, nested exports, callbacks, closures, threads and armed drops, each in a child process called from C++, against a recursive model of return or abort",
         "The naming of the function is required where a frame further up could catch the panic; without one the unwinder itself aborts, possibly before the guard runs. 1.72.1 toolchain, debug and release builds."),
 "H04": (PBT + "generated programs generated with generated option combinations into generated writers (short, interrupted, failing or refusing at any byte, buffered, files, user-defined definers), compared with the metamorphic reference (sentinel options substituted), with the list of exports, and between processes and builds; injected conflicts must be reported",
         "C, C# and Python; conflicts are a fixed list placed at generated positions. The naming convention option is accepted but not implemented by the library and is outside the statement."),
}
NA = {}
def main():
    sys.path.insert(0, os.path.join(V, "checks"))
    import registry
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for i in ids:
        if i in registry.CHECKS and i in T:
            checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
                               evidence_file=f"evidence/{i}.json", technique=T[i][0], level="exploration", level_note=T[i][1]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
             hooks=dict(guard="none", enable="the checks use only public items of the crate; no hooks were needed", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Checks build in /verif/target and /verif/.work (git-ignored). run.py replay ID FILE re-executes a replay file. See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", [x["property"] for x in na])
main()
