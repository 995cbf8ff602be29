import json
Q=lambda over,text: dict(over=over,text=text)
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,observe=None,state=None):
    a=dict(files=files,mechanism=[dict(name=mechanism,where=", ".join(files))])
    if observe: a["observe_at"]=[observe]
    if state: a["state"]=state
    P.append(dict(id=id,title=title,statement=statement,quantifier=Q(over,qtext),why_tests_cant=why,anchors=a))

p("B01","Bytes always denotes the byte string of a plain-slice model",
"Whatever the sequence of constructions, clones, subslicings, splits, upgrades, reads and drops, every live Bytes handle reads exactly the byte string the same operations give on an ordinary slice. A range or split position outside the current length is refused (panic, or the handle given back unchanged) and never yields bytes outside the handle, whatever the representation behind it (inline, static, borrowed, Arc, Vec, boxed, foreign vtable) and in every build profile.",
["histories","inputs","configurations"],"all histories of Bytes operations over all contents and lengths (around the inline limit too), all range forms including overflowing ones, all backing representations, debug and release builds",
"The repository's one Bytes test shrinks a handful of fixed buffers in a debug build; it cannot reach every length x representation x operation order, and nothing tests release builds.",
["src/bytes.rs"],"Bytes stores (ptr,len,data,capacity,vtable) or an inlined array with the length in the last byte; every mutating method re-derives the slice from these fields","return values and contents of the public methods of Bytes")
p("B02","Bytes releases its backing exactly once, never while still readable",
"For every history, on one or several threads, the owner behind a set of Bytes handles is released exactly once, after the last handle depending on it is gone, with the allocation layout it was made with; nothing is leaked. A handle promised to be independent of a borrow (upgraded, or made by copying) stays readable after that borrow ends.",
["histories","schedules"],"all histories of clone/shrink/split/upgrade/downcast/drop over all backings, ending borrows at any point, and concurrent clone/drop from several threads",
"Ownership mistakes show up only under particular clone/drop orders and representations; tests run one order and cannot see double frees, leaks or wrong layouts.",
["src/bytes.rs"],"retain/release function pointers of the vtable, Arc reference counts, inline copies","drop counters of owners, reference counts, a checking global allocator, contents after the borrow ended")
p("B03","Bytes allocation predictions and no-alloc operations are exact",
"Asking a handle whether cloning or upgrading will allocate answers exactly whether doing so then allocates. The no-allocation variants of clone and upgrade never allocate, succeed exactly when the allocating operation would not have allocated, and hand back the unchanged handle otherwise. A handle on static data or owned data upgrades without allocating; a slice that fits in the handle is copied into it by from_slice, inline_slice and copied_from_slice, after which neither cloning nor upgrading allocates.",
["histories","inputs"],"all reachable Bytes handles: every representation, length and slicing history",
"No existing test looks at allocation behaviour; the answer depends on representation x length x history.",
["src/bytes.rs"],"clone_will_allocate / upgrade_will_allocate / noalloc_clone / noalloc_upgrade","allocation counts of a counting global allocator, returned Result/Option")
p("B04","Downcasting Bytes to Arc<[u8]> succeeds only for the whole original Arc",
"Converting a Bytes back into a reference-counted slice succeeds exactly when the handle covers the whole of a buffer owned by such an Arc, then yields the same allocation with the same contents and takes over the handle's reference count. In every other case the handle comes back unchanged and still usable.",
["histories","inputs"],"all reachable Bytes handles over all representations and slicing histories",
"The outcome depends on how the handle was made and sliced; tests check one case.",
["src/bytes.rs"],"vtable identity comparison, capacity versus length","TryFrom result, pointer identity, strong count")
p("B05","Bytes compares, hashes, borrows and serializes as its byte string",
"Equality, ordering, hashing, borrowing, dereferencing and debug output of Bytes depend only on the bytes it denotes and agree with those of a byte slice, so handles with different representations are interchangeable as map keys. Serializing and deserializing round-trips the byte string for every way a deserializer may present it (borrowed, transient, owned, sequence with any size hint), and errors are returned rather than aborting.",
["histories","inputs"],"all pairs of reachable handles; all byte strings and deserializer behaviours, including lying size hints",
"Tests compare a few literals and two serde token streams.",
["src/bytes.rs"],"PartialEq/Ord/Hash/Borrow/AsRef/Serialize/Deserialize impls","results of the trait methods, lookups in hash and tree maps")
p("B06","Bytes converts to and from stabby slices without changing bytes or owners",
"Converting stabby's reference-counted slices, Arcs, vectors and boxed slices into Bytes preserves the contents and the ownership, and every B01/B02 guarantee holds for handles backed by them. Converting back to a reference-counted stabby slice succeeds, with the same bytes and the same owner, for a handle that was never sliced, and never for one that does not cover the complete original slice.",
["histories","inputs"],"all histories over Bytes backed by stabby containers of any length",
"One smoke test over one buffer exists; conversions after slicing, cloning and dropping in any order are untested.",
["src/bytes.rs"],"From<stabby...> impls, TryFrom<Bytes> for ArcSlice, vtables for stabby containers","contents, drop counters, TryFrom result, checking allocator")
p("S01","C-string types hold exactly NUL-terminated UTF-8 with no inner NUL",
"Building an owned or borrowed C string accepts exactly the inputs it documents (one terminating NUL if any, no interior NUL), rejects all others while returning the input unharmed, and the result reads back as the same text from Rust and from C. Conversions between the borrowed, raw and owned forms and ordinary strings preserve the text, and owned strings free exactly the memory that was allocated for them, also when the string comes back through C.",
["inputs","histories"],"all strings with NULs at any position, with and without spare capacity, all conversion chains",
"Tests convert a few ASCII literals; NUL placement, capacity and conversion order are unbounded.",
["src/char_p.rs","src/c_char.rs","src/proc_macro/c_str.rs"],"TryFrom impls, char_p::new, boxed/raw conversions, Drop through strlen","Results, text compared through CStr/strlen, checking allocator")
p("S02","Slices, vectors, boxes and strings cross the boundary intact",
"Converting Rust slices, vectors, boxes, strings and string slices to their C-compatible form and back preserves contents, length, element identity and, for vectors and strings, capacity. Every element is dropped exactly once and memory is freed with the layout it was allocated with, also after in-place modification through the Rust view, including when that modification panics.",
["inputs","histories"],"all contents, lengths (0 included), capacities, element types (zero-drop, droppable, over-aligned) and conversion/mutation histories",
"Existing tests only generate headers for these types; conversions are exercised in one or two doc examples.",
["src/slice.rs","src/vec.rs","src/boxed.rs","src/string/_mod.rs","src/string/slice.rs","src/ptr.rs"],"From/Into impls that take containers apart into ptr/len/cap, Drop impls rebuilding them, with_rust_mut scope guard","contents, pointers, drop counters, checking allocator")
p("C01","FFI closures forward every call with its arguments and result in order",
"Calling a boxed, reference-counted or borrowed FFI closure, through Rust or through its raw function pointer, runs the original closure exactly once with the same arguments in the same positions and returns its result unchanged, for every supported arity and argument size. State captured by a mutable closure evolves as with a direct call.",
["inputs","histories"],"arities 0 to 9, all argument values and mixed argument types, call sequences over shared state",
"Tests call one or two closures of arity at most two with constants.",
["src/closure/boxed.rs","src/closure/arc.rs","src/closure/borrowed.rs","src/closure/mod.rs"],"generated extern \"C\" trampolines taking the environment pointer first","recorded arguments and results versus a directly called twin closure")
p("C02","FFI closure environments live exactly as long as their handles",
"The captured environment of a boxed closure is dropped exactly once, when its handle is dropped; that of a reference-counted closure exactly once, when the last clone, made from Rust or by the raw retain function, is released, on whichever thread that happens. A borrowed closure never drops what it borrows, and no call can observe a dropped environment.",
["histories","schedules"],"all clone/retain/release/call/convert/drop histories across handles and threads, closures with empty, small and over-aligned environments",
"Tests drop closures implicitly at scope end and never count drops.",
["src/closure/boxed.rs","src/closure/arc.rs","src/closure/borrowed.rs","src/boxed.rs"],"free / release / retain function pointers over Box and Arc","drop counters, Arc counts, checking allocator")
p("D01","Virtual objects dispatch and clone like the Rust object behind them",
"Calling a method on an FFI trait object, directly or through its vtable, has the effect and result of calling it on the concrete value it was made from, for every pointer kind it can be built from (owned, pinned, shared, borrowed) and every method shape supported. A clone behaves as a clone of the pointer: shared state stays shared for reference-counted pointers and is copied for owned clonable ones.",
["histories","inputs"],"all call/clone/drop histories over every pointer kind, mutable and shared receivers, any argument values",
"The existing dyn-trait test builds one object per trait and calls each method once.",
["src/dyn_traits/_mod.rs","src/proc_macro/derives/dyn_trait/_mod.rs","src/proc_macro/derives/dyn_trait/vtable_entry.rs","src/proc_macro/derives/dyn_trait/coercions.rs"],"derive macro generating vtable structs and erased method shims","method results and side effects versus a model object")
p("D02","Virtual objects release the concrete value exactly once",
"Dropping the last FFI trait object referring to an owned or shared concrete value drops that value exactly once and frees its memory with the right layout; objects made from borrows never drop it. Type-erased drop guards run their destructor exactly once, when the last clone goes away, on any thread.",
["histories","schedules"],"all clone/call/drop orders over every pointer kind and concrete type (zero-sized, over-aligned, panicking method), including cross-thread drops",
"Tests never count drops or check layouts.",
["src/dyn_traits/_mod.rs","src/dyn_traits/dyn_drop.rs","src/proc_macro/derives/dyn_trait/coercions.rs"],"release_vptr / retain_vptr entries per pointer kind","drop counters, Arc/Rc counts, checking allocator")
p("F01","Futures cross the boundary with their outputs, wake-ups and cancellation",
"A future spawned, spawned as blocking work or blocked on through an FFI executor handle is run to completion with exactly one result delivered to the awaiter, for every pattern of pending polls and wake-ups and any executor that polls a task when woken. Work is run at most once, its captured state is dropped exactly once even when the handle is dropped early, and panics (as the same panic, where the executor hands it on) or dropped tasks surface to the awaiter instead of producing a value or hanging. Every use of a waker taken from the context of a poll wakes what that poll was made with.",
["schedules","histories","fault_sequences"],"all poll/wake/drop/panic scripts, task counts and executor behaviours (eager, lazy, dropping, tokio)",
"One test awaits three futures on one tokio runtime; wake orders, cancellation and panics are not explored.",
["src/dyn_traits/futures/_mod.rs","src/dyn_traits/futures/executor.rs"],"poll forwarding through a vtable, oneshot channel wrapping, take-once closures","outputs, poll counts, drop counters, watchdog")
p("L01","Validity checks accept exactly the bit patterns of the Rust type",
"Converting raw C data with the checked conversion succeeds exactly when the bytes form a legal value of the Rust type: booleans 0/1, declared enum values, non-null aligned pointers where required, null allowed exactly for optional types, and recursively for fields, array elements and tagged options. A rejected value is never turned into a Rust value; an accepted one reads back bit-for-bit.",
["inputs","programs"],"all bit patterns of types composed from integers, booleans, enums with arbitrary discriminants, pointers, arrays, structs, tuples, options and tagged options",
"One test tries a few values of one struct; validity recurses over an unbounded family of types and all their bit patterns.",
["src/layout/_mod.rs","src/layout/impls.rs","src/layout/niche.rs","src/option.rs","src/tuple.rs","src/proc_macro/derives/repr_c/struct_.rs","src/proc_macro/derives/repr_c/enum_.rs"],"ReprC::is_valid implementations, derived and built in; from_raw; HasNiche","from_raw / is_valid results versus an independent predicate over the bytes")
p("L02","Rust and C agree on size, alignment and field offsets of every exported type",
"For every exported type, the C declaration emitted for it has, under a C compiler for the same target, the same size, alignment and field offsets as the Rust type, and each field has the same meaning. Zero-sized marker fields take no room and do not appear.",
["programs"],"all programs exporting structs, arrays, tuples, enums, options, slices, closures and pointers nested in each other",
"The checked-in C test covers a fixed list of small types; layout agreement ranges over all compositions.",
["src/layout/impls.rs","src/layout/macros.rs","src/proc_macro/derives/c_type/struct_.rs","src/headers/languages/c.rs"],"C layouts derived per field, C text emitted per layout","sizeof/alignof/offsetof computed by gcc on the generated header versus the Rust values")
p("L03","Option, tagged option and out-pointer helpers behave as their Rust twins",
"The tagged option is a faithful two-state option: conversions to and from the standard option are inverse, every combinator gives the result and side effects of the standard one, comparison and hashing agree, and its contents are dropped exactly once. Optional non-null types use the null pattern for None and nothing else, and writing through an out-pointer makes exactly that value readable.",
["inputs","histories"],"all values and operation sequences over options of plain, droppable and pointer types",
"One test loops over u8 values for two conversions.",
["src/option.rs","src/layout/niche.rs","src/ptr.rs","src/tuple.rs"],"TaggedOption and pointer wrapper types","results versus core::option::Option; raw representation bytes")
p("H01","Generated C headers compile, self-contained, with every declaration once",
"For every set of exported functions, types and constants, the generated C header compiles on its own as C and as C++ with no diagnostics beyond style, can be included twice, defines every type before use and exactly once, and declares each exported function with its parameter count, order, types and result. Documentation text of any content never alters the declarations.",
["programs","inputs"],"all programs of exported items with nested pointers, arrays, function pointers, options, slices, opaque and renamed types, generics and arbitrary doc comments",
"Tests compile one fixed header; compositions of type constructors and documentation content are unbounded.",
["src/headers/_mod.rs","src/headers/definer.rs","src/headers/languages/c.rs","src/layout/impls.rs","src/proc_macro/ffi_export/fn_/mod.rs"],"define-once traversal of the type graph, printing of C declarators","gcc and clang, C and C++, on generated headers; parsed declarations versus the exported items")
p("H02","Enum values and constants in generated headers equal the Rust values",
"In every generated header, each enum variant and each exported constant has the numeric or textual value it has in Rust, for any integer representation, sign, explicit or implicit discriminant, and the enum type has the size of its declared representation.",
["programs","inputs"],"all enums (any integer repr, discriminants at the extremes, gaps) and integer, boolean, float and string constants",
"The checked-in header has three enums and one constant, compared textually.",
["src/headers/languages/c.rs","src/headers/languages/python.rs","src/headers/languages/csharp.rs","src/proc_macro/derives/repr_c/enum_.rs","src/proc_macro/ffi_export/const_.rs"],"emit_simple_enum / emit_constant","values evaluated by gcc, by cffi, and parsed from C#, versus the Rust values")
p("H03","C# and Python headers describe the same interface as the C header",
"The C# and Python renderings of the same exported items contain the same functions with the same parameter order and ABI-compatible parameter, field and result types as the C header, declare every type they mention exactly once, and agree on struct layout.",
["programs"],"all programs of exported items",
"Tests compare the two files with a checked-in copy for one fixed program and compile neither.",
["src/headers/languages/csharp.rs","src/headers/languages/python.rs","src/layout/impls.rs","src/layout/_mod.rs"],"per-language name/definition methods on the C layouts","cffi parses the Python header and reports layouts; a structural C# reader; both versus the Rust layouts")
p("H04","Header generation is deterministic, complete and reports every failure",
"Generating twice from the same program with the same options gives identical bytes, containing every exported item, whatever the writer does with partial writes. Builder options (guard, banner, text after guard, language, ordering) change exactly what they document, and any write error or conflicting export is returned as an error rather than ignored.",
["configurations","fault_sequences","programs"],"all builder option combinations and option strings, all writers (short writes, interrupted, failing at any byte)",
"Tests generate with default options to a healthy file.",
["src/headers/_mod.rs","src/headers/definer.rs","src/headers/templates"],"Builder::generate, Definer","bytes written, io::Result")
p("E01","Exported functions transport values unchanged between C and Rust",
"When C calls an exported function declared by the generated header, every argument arrives in Rust with the value C passed and the returned value arrives in C unchanged, for every supported parameter type and position, including structs by value, arrays, options, slices, closures called back from either side and out-pointers.",
["programs","inputs"],"all exported signatures (any number and order of parameters) and all argument values",
"The checked-in C test makes a dozen calls with fixed arguments.",
["src/proc_macro/ffi_export/fn_/mod.rs","src/layout/_mod.rs","src/headers/languages/c.rs"],"shim converting each C argument with from_raw and the result with into_raw","a generated C program calls generated Rust functions, both sides log the values")
p("E02","A panic never unwinds out of an exported function into C",
"Whenever the body of an exported function panics, whatever the arguments, the payload or the nesting of calls, the process aborts; it never returns a value to the caller nor unwinds into it. Where a frame further up would have caught the panic, the message of the abort names the exported function. A panic caught inside the body has no such effect.",
["inputs","fault_sequences"],"all panic sites (body, argument drop, nested exported call, callback), payload kinds and caught panics",
"No test panics across an exported function.",
["src/proc_macro/ffi_export/fn_/mod.rs","src/_lib.rs"],"guard object aborting on unwind, forgotten on success","exit signal and stderr of a child process")
p("N01","Every type gets a total, valid and stable C name",
"Computing the C name of any exportable type, including opaque instances of arbitrarily nested generic containers, tuples, references, slices and trait objects, always succeeds and yields a valid C identifier usable in the header; it is the same on every run.",
["inputs","programs"],"all Rust type names of nested generics, tuples, arrays, references, lifetimes, function types",
"Tests name a handful of non-nested types.",
["src/_lib.rs","src/layout/impls.rs","src/layout/_mod.rs"],"append_unqualified_name parsing of type names, short_name composition","returned names; headers compile")
p("J01","Values cross the Node binding unchanged or are refused",
"Values passed between JavaScript and exported functions through the Node binding keep their value: numbers up to the bounds of every width, BigInts, booleans, strings, buffers and views of buffers, enums, structs, out-parameters and typed pointers, as arguments and as results. An argument whose type, range or pointee type is not the parameter's makes the call throw a JavaScript error, and the function is not run with a corrupt value. Strings, buffers and objects handed over are freed exactly once.",
["inputs"],"all exported signatures, all JavaScript values and all sequences of calls",
"The JavaScript suite makes some thirty calls with fixed arguments, and needs a fork of napi-rs that has to be fetched.",
["src/js/_mod.rs","src/js/impls.rs","src/js/ffi_helpers.rs","src/proc_macro/ffi_export/fn_/mod.rs","src/proc_macro/derives/repr_c/js.rs"],"ReprNapi conversions, with…/box…/ref… helpers","values logged by the Rust functions, values and errors seen by JavaScript, live objects and allocations")
p("J02","JavaScript callbacks and promises deliver each call exactly once",
"A JavaScript function passed to Rust receives the arguments of every call exactly as Rust gave them, once per call and in order, whether called on Node's thread, on another thread or detached, its result reaches the Rust caller, and it is kept alive as long as some handle exists and no longer. Node stays alive for the callbacks that were made to wait for, until they are released, and for no others. The promise of an exported async function or async worker settles once with the function's result for its own arguments, also with many of them pending; the function's mismatching arguments throw.",
["inputs","schedules"],"all callback signatures and values, calls from any thread, numbers and orders of pending promises",
"The JavaScript suite calls three callbacks and three async functions once.",
["src/js/closures/node_js.rs","src/js/_mod.rs","src/proc_macro/ffi_export/fn_/mod.rs","src/js/ffi_helpers.rs"],"call_trampoline / convert_params, async worker and ffi_await expansion","arguments received by the JavaScript callbacks, results received by Rust, settled promises, collectability of the callbacks")
p("R01","Types without a C representation are refused, supported ones accepted",
"A crate in which an exported function, derived type, or FFI trait uses a type without a C representation (tuples, `char`, 128-bit integers, `Option` without a niche, Rust-ABI function pointers, empty arrays, types without the derive, opaque types by value, and anything built by value from these) at any depth and position does not compile; neither does a derive on a declaration whose layout C cannot express (missing or unsupported `repr`, separate packing or alignment, no fields, enums with payloads or without variants, unions), or an export of a function with type or const parameters, another ABI, a receiver, variadic arguments or, when async, no executor. What the documentation says is supported compiles wherever it is used: every primitive, pointer, slice, string, vector, box, closure, fat pointer, tuple, array, tagged option, newtype and derived type, nested at will, and opaque types behind any pointer.",
["inputs"],"all types, declarations and signatures that a user may write",
"The repository has a few compile-fail doctests and one macro test; a hole (or a needless refusal) shows only for one combination of type, depth and position.",
["src/layout/impls.rs","src/layout/_mod.rs","src/proc_macro/derives/repr_c/struct_.rs","src/proc_macro/derives/repr_c/enum_.rs","src/proc_macro/derives/repr_c/_mod.rs","src/proc_macro/ffi_export/fn_/mod.rs"],"ReprC / ConcreteReprC / OPAQUE_KIND bounds, attribute checks of the derives","whether rustc accepts the crate")
p("R02","Rust's rules on threads, lifetimes and ownership hold for the library's types",
"A safe program that uses the library's types is accepted by rustc exactly where the program using the standard types of the same ownership is: boxes, vectors, slices, strings, closures, virtual pointers, bytes and out-references are `Send`, `Sync`, `Copy` and `Clone` (where promised) and vary with their parameters as their standard counterparts; closures and trait objects only capture what their type admits (Send, Sync, 'static, or the named lifetime); no view outlives, moves, or aliases mutably what it borrows, through any chain of conversions; owned values are used once; what upholds a type's guarantees is private; unsafe functions need `unsafe`; and the bodies of exported functions are checked as those of others.",
["inputs"],"all safe programs over the public API",
"Soundness holes are programs which compile and should not; unit tests only hold programs that compile.",
["src/slice.rs","src/bytes.rs","src/vec.rs","src/boxed.rs","src/string/slice.rs","src/char_p.rs","src/ptr.rs","src/closure/boxed.rs","src/closure/arc.rs","src/closure/borrowed.rs","src/dyn_traits/_mod.rs","src/proc_macro/derives/dyn_trait/coercions.rs","src/dyn_traits/dyn_drop.rs"],"where clauses of unsafe impls, lifetimes of views, PhantomData variance, bounds of constructors","whether rustc accepts the program")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import subprocess
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,s)
    print("ok",len(P))
except ImportError: print("no jsonschema")
