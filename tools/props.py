import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
BY="src/bytes.rs"
p("B01","A byte string holds exactly the bytes it was built from",
 "A `Bytes` value yields exactly the bytes it was constructed from, whichever constructor or backing (borrowed, static, inlined, boxed, vector, shared, stable-ABI, raw parts) made it and however often it has been cloned. Equality, ordering, hashing, debug output of its length, borrowing and serialisation depend on those bytes only, never on how they are stored.",
 ["inputs"],"every content and length around the inline threshold, every backing, two values compared with each other",
 "The tests use a few literals and random data of 10..100 bytes behind one shared backing; never every content, every backing or mixed pairs.",
 [BY],[("inline representation",BY+" inline_unchecked/len/as_slice"),("constructors",BY+" From impls"),("Eq/Ord/Hash",BY+" impl PartialEq/PartialOrd/Hash"),("serde",BY+" BytesVisitor")],
 [("vtable","low bit set: the bytes are stored inline, length in the low byte",BY)],["as_slice, len, ==, partial_cmp, hash, serialize"])
p("B02","Sub-slicing bytes is exactly slicing",
 "For every `Bytes` value and every range or index, slicing in place, slicing by value and splitting give exactly the bytes the same operation gives on a plain slice. An invalid range panics and an out-of-bounds split index gives the value back unchanged, exactly when the plain slice would reject it.",
 ["inputs","histories"],"every range form and bound including the extremes of usize, every split index, every backing, repeated slicing",
 "The tests sample ranges of one backing of 10..100 bytes, never ranges of inlined values, never invalid ranges or inclusive/exclusive extremes.",
 [BY],[("bounds check",BY+" shrink_to"),("split",BY+" split_at")],None,["shrink_to, subsliced, split_at"])
p("B03","The owner behind bytes is released exactly once, and not early",
 "However a `Bytes` value is cloned, sliced, split, upgraded, converted and dropped, the storage it was built from stays readable as long as any value derived from it without copying is alive, and is released exactly once after the last one is gone: no leak, no double release, no access after release.",
 ["histories","inputs"],"every sequence of operations up to the bound, for every owning backing, every length, every order of drops",
 "The tests never observe the release of the owner and never mix operations; a leak or early release passes them.",
 [BY],[("retain/release",BY+" BytesVt, noalloc_clone, Drop"),("backings",BY+" retain_arc_bytes, release_arc_bytes, release_box_bytes, stabby ones")],
 [("owner, capacity","the two words handed to retain and release",BY)],["allocator, retain/release calls"])
p("B04","Upgrading never lets borrowed bytes outlive their source",
 "Converting a `Bytes` value to the static lifetime, with or without allocation, never yields a value that still refers to borrowed memory, keeps the content, and without allocation succeeds whenever the value is inlined, static or owns its storage.",
 ["inputs","histories"],"every backing and length, values derived by slicing and cloning",
 "No test calls the allocation-free upgrade, and reading a dangling slice does not fail reliably.",
 [BY],[("upgrade",BY+" upgrade, noalloc_upgrade"),("borrowed marker",BY+" BytesVt::is_borrowed")])
p("B05","Predictions about allocation are truthful",
 "The predicates that say whether cloning or upgrading a `Bytes` value will allocate are exact: the operation allocates if and only if the predicate said so, and the allocation-free variants never allocate.",
 ["inputs"],"every backing and every length around the inline threshold and the size of the type",
 "The doc tests check two lengths far away from the thresholds.",
 [BY],[("predicates",BY+" upgrade_will_allocate, clone_will_allocate"),("inline threshold",BY+" MAX_INLINE_SIZE, inline_slice")])
p("B06","Recovering the shared buffer from bytes succeeds exactly when sound",
 "Turning a `Bytes` value back into the shared buffer type succeeds exactly when it is backed by that buffer type and covers all of it, and then gives the same buffer with the same content without copying. Otherwise it gives the value back unchanged, and in both cases ownership counts stay right.",
 ["inputs","histories"],"every backing, every sub-range, clones present or not",
 "No test converts a value that was sliced, which is the case that must be refused.",
 [BY],[("TryFrom",BY+" TryFrom<Bytes> for Arc<[u8]> and ArcSlice<u8>")])
SL="src/slice.rs"
p("S01","FFI slices are the Rust slices they came from",
 "Converting a borrowed, mutable or boxed slice into its FFI form and back, re-borrowing it, viewing it raw, comparing, hashing, defaulting or cloning it gives exactly the same elements in the same order, at the same address where no copy is made, and writes through the mutable form land in the original.",
 ["inputs"],"every element value and every length up to the bound, for several element types including zero-sized and over-aligned ones",
 "Tests build one or two literals; they never vary lengths (0 in particular) and element types.",
 [SL,"src/boxed.rs"],[("conversions",SL+" From impls, as_ref, as_mut, as_slice"),("comparison traits",SL+" Ord/PartialEq/Hash")])
p("S02","FFI boxes own exactly one allocation",
 "A boxed value or boxed slice in FFI form owns its elements: each is dropped exactly once, the allocation is returned with the layout it was made with, converting to and from the Rust box transfers ownership without copy, and clones are independent.",
 ["inputs","histories"],"every length up to the bound, element types with destructors, zero-sized elements, moves in and out",
 "Leaks, double drops and wrong deallocation layouts do not fail a unit test.",
 [SL,"src/boxed.rs"],[("Drop, From",SL+" slice_boxed"),("Box_","src/boxed.rs")])
p("V01","FFI vectors and Rust vectors convert losslessly",
 "Converting a vector to its FFI form and back preserves pointer, length, capacity and elements, dropping or cloning either form drops or clones every element exactly once, and the constant empty vector and the literal macro behave like their Rust counterparts.",
 ["inputs","histories"],"every length and spare capacity up to the bound, element types with destructors and zero-sized ones",
 "No unit test exercises capacities different from lengths, zero-sized elements, or counts drops.",
 ["src/vec.rs"],[("From both ways","src/vec.rs"),("Drop, Clone","src/vec.rs")])
p("V02","Editing an FFI vector or string in place is transactional",
 "Giving a closure access to the Rust view of an FFI vector or string leaves the FFI value equal to what the closure left behind, whatever the closure did (grow, shrink, replace, move out) and also when it panics: nothing is leaked, freed twice or left dangling.",
 ["inputs","fault_sequences"],"every sequence of edits up to the bound, a panic at any point",
 "No test panics inside the closure or replaces the vector wholesale.",
 ["src/vec.rs","src/string/_mod.rs"],[("with_rust_mut","src/vec.rs, src/string/_mod.rs")])
CP="src/char_p.rs"
p("C01","C strings accept exactly the strings C can represent",
 "Building a borrowed or owned C string succeeds exactly when the input has no NUL except possibly as its last byte (a borrowed one needs that terminator, except for the empty string); every rejection is an error or panic that leaks nothing, and never a truncation.",
 ["inputs"],"every byte content up to the bound, every position of NUL, all source types",
 "Tests try a couple of literals; the boundary cases are NUL in first, last and last-but-one place and the empty string.",
 [CP],[("validation",CP+" TryFrom<&str>, TryFrom<String>, From<CString>, char_p::new")])
p("C02","C strings read back and release what they were given",
 "Every view of a C string (bytes, non-zero bytes, with or without terminator, str, iterator, owned conversions, comparison) yields exactly the text it was built from, reads nothing past the terminator, and owned C strings release their allocation exactly once with the size it was made with, the shared empty string never being released.",
 ["inputs","histories"],"every text up to the bound, every owned/borrowed conversion chain",
 "Tests check a literal or two and cannot see deallocation size or reads past the terminator.",
 [CP],[("views",CP+" to_bytes, to_str, bytes"),("release",CP+" Drop, into_vec, EMPTY_SENTINEL")])
p("T01","FFI strings are the Rust strings they came from",
 "Owned, boxed and borrowed FFI strings convert from and to their Rust counterparts, clone, deref and edit with exactly the same text, and release their storage exactly once.",
 ["inputs","histories"],"every valid UTF-8 text up to the bound, every conversion chain",
 "Tests use one or two literals.",
 ["src/string/_mod.rs","src/string/slice.rs"],[("conversions","src/string/_mod.rs, src/string/slice.rs")])
p("O01","The tagged option behaves like Option",
 "For every value the tagged option converts from and to the standard option without loss, all its accessors and combinators agree with the standard ones, payloads are dropped exactly once, and its comparison and hash agree with the standard option's.",
 ["inputs"],"every payload value for several payload types, both variants",
 "The unit test enumerates one payload type and does not run the combinators against Option, nor count drops.",
 ["src/option.rs"],[("TaggedOption","src/option.rs")])
LA=["src/layout/_mod.rs","src/layout/impls.rs","src/layout/macros.rs","src/layout/niche.rs"]
p("R01","Validity of built-in types accepts exactly the valid bit patterns",
 "For every built-in FFI-capable type (integers, bool, floats, references, non-null and function pointers, options of those, boxes, tuples, arrays, tagged options) the run-time validity check accepts a raw C value if and only if its bit pattern is one the Rust type allows, and reinterpretation from raw checks it.",
 ["inputs"],"every bit pattern of the raw representation, for each type",
 "Tests probe a few values of a few types; the claim is about every bit pattern.",
 LA+["src/option.rs","src/tuple.rs"],[("ReprC::is_valid","src/layout/impls.rs"),("from_raw","src/layout/_mod.rs"),("niches","src/layout/niche.rs")])
p("R02","Validity of derived types is the conjunction of their fields",
 "For every struct deriving the FFI layout the validity check accepts a raw value if and only if every field is valid, and for every field-less enum if and only if the discriminant is one that is declared, whatever representation, signedness and discriminants it has.",
 ["inputs","programs"],"every bit pattern, for a family of derived structs, generics, transparent wrappers and enums with gaps, negative and explicit discriminants",
 "Tests derive a handful of types and never probe all bit patterns.",
 ["src/layout/macros.rs","src/proc_macro/derives"],[("ReprC! is_valid","src/layout/macros.rs"),("derive_ReprC","src/proc_macro/derives/repr_c")])
p("R03","The C layout of a type is the layout of the Rust type",
 "For every FFI-capable type the associated C type has the same size and alignment and puts every field at the same offset, so that a value converted to its C form and back is bit-for-bit the value it was.",
 ["inputs","programs"],"every value of a family of types: primitives, tuples, arrays, derived structs, enums, slices, vectors, closures, trait objects",
 "Static assertions cover size and alignment only where instantiated; field placement and round trips of every value are not tested.",
 LA,[("CLayout","src/layout/_mod.rs, src/layout/macros.rs"),("into_raw/from_raw","src/layout/_mod.rs")])
CL=["src/closure/arc.rs","src/closure/boxed.rs","src/closure/borrowed.rs"]
p("L01","FFI closures call through faithfully",
 "Calling an FFI closure of any kind and arity, from Rust or through its C function pointer, runs the original closure exactly once with exactly the given arguments in order and returns exactly its result, with its captured state persisting between calls.",
 ["inputs","histories"],"every argument value, arities 0 to 9, all three kinds, repeated calls",
 "Tests call one closure of small arity with constants.",
 CL,[("call thunks","src/closure/*.rs")])
p("L02","FFI closures release their captures exactly once",
 "Boxed closures drop their captures once when freed; shared closures keep them alive while any clone is alive and drop them once after the last, for every order of clones, calls and drops; a borrowed closure never drops them. Cloning a shared closure without a retain function panics instead of aliasing.",
 ["histories","schedules"],"every sequence of clone, call and drop up to the bound, also across threads, panicking closures included",
 "Drop counts and thread interleavings are not observed by the tests.",
 CL,[("retain/release/free","src/closure/arc.rs, src/closure/boxed.rs")])
DY=["src/dyn_traits/_mod.rs","src/dyn_traits/dyn_drop.rs","src/proc_macro/derives/dyn_trait"]
p("D01","Virtual pointers dispatch to the right method",
 "A method called on an FFI trait object runs the method of that name of the value behind it with exactly the given arguments and returns its result, for shared, mutable, pinned and owned receivers, for every pointer kind it was made from.",
 ["inputs","programs"],"every argument value, a family of traits with several methods of the same signature, all pointer kinds",
 "The tests have one trait with few methods and constant arguments; a swapped vtable slot of equal signature needs several methods to show.",
 DY,[("derive_ReprC(dyn)","src/proc_macro/derives/dyn_trait"),("VirtualPtr","src/dyn_traits/_mod.rs")])
p("D02","Virtual pointers release what they own exactly once",
 "Dropping an FFI trait object releases the pointer it was made from exactly as that pointer would be: owned values are dropped once, shared ones when the last owner goes, borrowed ones never. Cloning one yields an independent owner of the same value.",
 ["histories","schedules"],"every pointer kind, every sequence of clone and drop up to the bound",
 "Drop counts are not observed for every pointer kind.",
 DY,[("drop_ptr, dyn_clone","src/dyn_traits/_mod.rs and the derive's expansion")])
FU=["src/dyn_traits/futures/_mod.rs","src/dyn_traits/futures/executor.rs"]
p("D03","FFI futures complete like the futures they wrap",
 "Polling an FFI future polls the wrapped one exactly once and reports pending or completed as it did, for every pattern of readiness; turning it back into a future resolves exactly when it completes, wakes through the same waker, and drops the wrapped future exactly once.",
 ["schedules","histories"],"every pattern of pending and ready up to the bound, drop at any point",
 "The only test needs tokio and completes at once.",
 FU,[("dyn_poll, into_future","src/dyn_traits/futures/_mod.rs")])
p("D04","Executors hand results back through the FFI executor trait",
 "Spawning, blocking-spawning and blocking on work through an FFI executor trait object runs the work exactly once and returns exactly its result; an executor that drops or never completes the work yields the documented error or panic, never a made-up result, and leaks nothing. The executor implemented for tokio's runtime handle keeps to the same: each task or piece of work runs once on that runtime, its result or its panic reaches whoever awaits it, lost work is reported as documented, and entering lasts as long as its guard.",
 ["schedules","fault_sequences"],"every result value, executors that run now, later, or drop the work",
 "The only test uses a well-behaved tokio runtime.",
 FU,[("spawn, spawn_blocking, block_on","src/dyn_traits/futures/executor.rs")])
FX=["src/proc_macro/ffi_export","src/_lib.rs","src/layout/_mod.rs"]
p("F01","Exported functions forward arguments and results unchanged",
 "Calling an exported function through its C symbol passes every argument to the Rust function unchanged and in order and returns its result unchanged, for every FFI-capable signature shape.",
 ["inputs","programs"],"every argument value, a family of signatures: scalars, structs by value, pointers, slices, options, callbacks, out-parameters",
 "Tests call few exports, with constants, and from Rust.",
 FX,[("ffi_export","src/proc_macro/ffi_export")])
p("F02","A panic never unwinds out of an exported function",
 "If the body of an exported function panics, the process is stopped before control returns to the foreign caller; if it does not panic, the guard has no effect.",
 ["inputs","fault_sequences"],"every input that decides whether and where the body panics",
 "A test cannot observe an abort in its own process.",
 FX,[("UnwindGuard","src/_lib.rs __abort_with_msg__, src/proc_macro/ffi_export")])
p("F03","Invalid arguments from the foreign side are caught, valid ones never refused",
 "When an exported function receives an argument whose bit pattern its Rust type does not allow, the process is stopped before the body runs, wherever the check is enabled; arguments that are valid are always let through.",
 ["inputs"],"every bit pattern of every argument, for a family of argument types",
 "Tests cannot pass invalid values without aborting and try no bit patterns.",
 FX,[("argument validation","src/layout/_mod.rs from_raw, src/proc_macro/ffi_export")])
HD=["src/headers/_mod.rs","src/headers/definer.rs","src/headers/languages","src/layout/_mod.rs"]
p("H01","The generated C header describes the compiled ABI",
 "A C program compiled against the generated header agrees with the compiled library on every type and function: what C writes in a field is what Rust reads there, sizes match, and arguments and results of every exported function arrive unchanged in both directions.",
 ["inputs","programs"],"every value of every argument and field, for a family of exported types and signatures",
 "Tests compare header text against a stored copy; whether that text matches the ABI for every value is not checked.",
 HD,[("C language emitter","src/headers/languages/c.rs"),("c_define_self","src/layout/impls.rs, src/layout/macros.rs")])
p("H02","Constants and enum variants in headers have their Rust values",
 "Every enum variant and exported constant has, in the generated C header, the numeric value and the width it has in Rust.",
 ["inputs","programs"],"every variant of a family of enums (implicit, explicit, negative and sparse discriminants) and every exported constant",
 "Tests compare with a stored header for a few enums.",
 HD,[("emit_simple_enum","src/headers/languages/c.rs"),("constants","src/headers/_mod.rs")])
p("H03","The generated C# bindings describe the compiled ABI",
 "A C# program using the generated P/Invoke declarations agrees with the compiled library: every declared struct has the layout, every enum variant and constant the value and width, and every argument and result of an exported function arrives unchanged, under the marshalling rules of P/Invoke.",
 ["inputs","programs"],"every value of every argument and field, for a family of exported types, constants and signatures",
 "Tests generate C# text but no test compiles or runs it.",
 HD,[("CSharp language emitter","src/headers/languages/csharp.rs"),("csharp_ty, csharp_marshaler","src/layout/impls.rs, src/layout/_mod.rs")])
p("H04","The generated Python declarations describe the compiled ABI",
 "A Python program that loads the generated declarations with cffi agrees with the compiled library: every struct has the layout and every enum variant the value and width it has in Rust, and every argument and result of an exported function arrives unchanged.",
 ["inputs","programs"],"every value of every argument and field, for a family of exported types and signatures",
 "Tests generate the text but nothing uses it.",
 HD,[("Python language emitter","src/headers/languages/python.rs")])
p("K01","Reference counts survive every interleaving",
 "When clones of a shared closure, shared bytes or shared trait object are used, cloned and dropped from several threads at once, under every interleaving the shared value stays alive while used and is released exactly once.",
 ["schedules"],"every interleaving of the atomic operations of two or three threads up to the stated preemption bound",
 "Tests have no multi-threaded use at all, and sampling schedules would not cover them.",
 ["src/closure/arc.rs",BY,"src/dyn_traits/_mod.rs"],[("retain/release",BY+", src/closure/arc.rs")])
p("J01","The Node.js bindings keep values intact",
 "Values passed between JavaScript and Rust through the generated Node.js bindings (numbers, strings, buffers, callbacks, boxed values) arrive unchanged, and invalid ones are refused with an exception instead of undefined behaviour.",
 ["inputs"],"every JavaScript value accepted by an exported function",
 "Needs a Node.js addon build; the Rust tests do not run it.",
 ["src/js/_mod.rs","src/js/ffi_helpers.rs","src/js/impls.rs"],[("ReprNapi","src/js/impls.rs")])
p("M01","Compile-time C string literals are refused exactly when invalid",
 "The literal macro for C strings accepts a literal if and only if it has no interior NUL, and the pointer it yields reads back as the literal.",
 ["inputs","programs"],"every literal up to a bound",
 "Tests have a few literals; a rejected literal is a compile error, which a unit test cannot observe.",
 ["src/proc_macro/c_str.rs"],[("c_str!","src/proc_macro/c_str.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P), [x["id"] for x in P if len(x["title"])>80])
