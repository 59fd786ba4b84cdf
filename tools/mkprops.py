import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TB="src/tagged_box.rs";TP="src/tagged_pointer.rs";MM="src/tagged_box_macro/mod.rs";ME="src/tagged_box_macro/meta_macros.rs";D="src/discriminant.rs";TG="src/taggable.rs"
p("C01","Tagged containers give back exactly what was put in",
 "Whatever variant of a macro-defined enum is put into a container, by any conversion (from the enum, from a field or tuple of fields, or through the boxed form), every way of taking it out or looking at it yields that same variant with every field's value in its own position. This holds for unit, empty, 1- to 32-element tuple and struct variants of any field types, sizes and alignments, whatever happened before to this or other containers and wherever the allocator places the storage. For enums that are Copy, every copy of a container yields the value.",
 ["histories","inputs","fault_sequences","schedules"],
 "Every history of creating, viewing, cloning, moving, taking out and re-inserting values of any enum shape, under every allocator placement/reuse policy, interleaved with failing operations.",
 "The tests build a handful of enums (arity 1, 2, 4, few field types, one value each, one live box at a time) on the system allocator; field order bugs at other arities, layouts sensitive to padding or alignment, and stale storage after reuse never show.",
 [MM,ME,TG,TB],[("tuple/struct payload structs shared by writer and readers",MM+" __taggable_into_box/__boxed_into_inner/__from_tagged_box/__ref_from_tagged"),("field re-assembly by arity",ME+" __expand_tuple/__expand_tuple_arm"),("From impls",MM+" __derive_from")],
 [("payload block","heap storage of one variant's fields","TaggedBox.boxed"),("variant index","discriminant bits of the box","TaggedPointer.tagged_ptr")],
 ["Container::from / into_inner","TaggableInner::{into_tagged_box,from_tagged_box,ref_from_tagged_box}"])
p("C02","A raw tagged box is one live value reachable through every view",
 "For a box made directly from a value of any type, all typed views (shared and mutable references, raw pointers, conversion to a raw pointer and back, conversion to a standard Box and back, and a tagged pointer rebuilt from that address) address the same single stored value. A write through any mutable view is what every later view and the final extraction return, and none of these conversions changes the value, its address or (unless a new one is given) its discriminant.",
 ["histories","inputs","fault_sequences"],
 "Every sequence of views, writes and conversions over payloads of any size (including zero) and alignment, at any address the allocator returns.",
 "Doc tests do one conversion on one value each; sequences of conversions, over-aligned, odd-sized, large and zero-sized payloads, and adversarial addresses (odd, straddling power-of-two boundaries, near the top of the address range, immediately reused) are not exercised.",
 [TB,TP],[("typed access by stripping the tag",TP+" as_ref/as_mut_ref/as_ptr/as_mut_ptr/strip_discriminant"),("ownership conversions",TB+" into_inner/into_raw/from_raw/into_box")],
 [("tagged_ptr","address plus discriminant bits",TP)],["TaggedBox::{new,new_unchecked,as_ref,as_mut_ref,as_ptr,as_mut_ptr,into_raw,from_raw,into_box,into_inner}","TaggedPointer"])
p("C03","Discriminants are kept exactly or refused, never truncated",
 "A box reports for its whole life exactly the discriminant it was created with (for a macro-defined enum: the position of the variant), for every discriminant up to 2^(64-width)-1, whatever address its storage has and whatever operations run on it. A larger discriminant, or a pointer that does not fit in the reserved width, is refused with a panic, in optimised builds too and for zero-sized values too, and a refused discriminant never leaks or double-drops the value that was being boxed. Two packed pointers are equal (and then hash alike) exactly when their addresses and discriminants are.",
 ["histories","inputs","configurations"],
 "All discriminants, all payload sizes, all 16 pointer widths, debug and optimised builds, all histories of operations and addresses.",
 "Tests run only at the default width in a debug build, with a few discriminants, and test one oversized discriminant on a bare pointer; release builds, zero-sized payloads and the other 15 widths are never run.",
 [D,TP,TB,MM],[("range checks at construction",TP+" new/dangling"),("per-width constants",D+" generate_discriminants"),("variant counter enum",MM+" __counter_enum")],
 [("MAX_DISCRIMINANT","largest accepted discriminant for the width",D)],["TaggedBox::discriminant","construction panics"])
p("C04","A box whose discriminant names no variant is refused, not decoded",
 "If the discriminant of a box typed for a macro-defined enum is not the position of one of its variants, every attempt to take the value out, look at it by callback, clone, compare or print it ends in a panic. No callback runs, no enum value is produced and the stored value is left intact.",
 ["histories","inputs"],
 "Every enum shape, every discriminant between the number of variants and the maximum, every extraction and observation route, alongside other live boxes.",
 "No test constructs such a box.",
 [MM],[("catch-all arms",MM+" __boxed_into_inner/__from_tagged_box/__ref_from_tagged")],None,["from_tagged_box","into_inner","ref_from_tagged_box","Clone/PartialEq/PartialOrd/Debug of TaggedBox"])
p("C05","Construction with a failing allocator panics cleanly",
 "If the allocator cannot supply storage, every construction path (raw boxes, unchecked construction, macro conversions, clones) ends in an ordinary unwinding panic: no box comes into existence, nothing is written through a null pointer, and the value being boxed is dropped exactly once. All other boxes keep their values and later constructions succeed once memory is available again.",
 ["fault_sequences","histories"],
 "Every operation that allocates, an allocation failure at any point of any history, every payload type, debug and optimised builds.",
 "The tests never make an allocation fail.",
 [TB],[("null check before the value is written",TB+" new/new_unchecked")],None,["unwinding out of TaggedBox::new and callers","drops of the rejected value"])
p("C06","Looking at a value never consumes it, even when user code panics",
 "Borrowing callbacks, comparisons, printing, cloning and reference access leave the stored value in place, bit for bit and undropped, whether they finish or user code (the callback, a comparison, a formatting or clone implementation, the output sink) panics part way; such a panic reaches the caller. Afterwards the value can still be observed and taken out, and its destructor runs at most once in its whole life, also for zero-sized types.",
 ["fault_sequences","histories"],
 "Every observer operation, a panic or error at every user-code call made inside it, every variant shape, any number of repetitions.",
 "No test has a payload with a destructor that is checked, and none panics inside user code.",
 [MM,TB],[("temporary copy held in ManuallyDrop",MM+" __ref_from_tagged"),("ManuallyDrop around the consumed box",TB+" into_inner/into_raw")],None,["drop counts of payload values","unwinding from callbacks"])
p("C07","Heap accesses stay inside the box's own block",
 "Each box with a non-zero-sized value owns exactly one heap block, requested with exactly that value's size and alignment, and a zero-sized value uses no heap at all. The library never writes outside its block, never uses or frees a block it has given up, never frees the same block twice, and a block handed over as a standard Box is released with the layout it was allocated with.",
 ["histories","fault_sequences","inputs"],
 "Every history of operations, payload sizes 0 to 64 KiB and alignments 1 to 4096, on an allocator that returns minimally aligned blocks, poisons memory and reuses freed blocks at once.",
 "The system allocator over-aligns, pads and rarely reuses at once, so overruns, misalignment, wrong layouts and stale accesses pass unnoticed in the tests.",
 [TB],[("layout of the stored type used for allocation",TB+" new/new_unchecked"),("no allocation for zero-sized types",TB+" dangling")],None,["calls at the global allocator interface","guard bytes around blocks"])
p("C08","No storage or value is lost",
 "Heap blocks and values are conserved: observers leave no block or temporary value behind, a failed operation gives back everything it acquired, conversions transfer exactly one block, and when a box is dropped or its value taken out its block is released (once, with the layout it was requested with) and the value is dropped exactly once by its final owner.",
 ["histories","fault_sequences"],
 "Every history of operations with failures injected at any allocation or user-code call, counted per operation.",
 "No test counts allocations or drops.",
 [TB,MM],[("ownership transfer",TB+" into_inner/into_box/into_raw"),("(there is no Drop implementation)",TB)],None,["block and value counts at the allocator and destructor interfaces"])
p("C09","Clones are independent, and a failed clone leaves no trace",
 "A clone holds an equal value of the same variant in storage of its own: later changes, extraction or destruction of either side never affect the other (a container that is Copy may share one storage among its plain copies). If cloning fails part way because a field's clone panics or the allocator fails, the original is unchanged, no second box exists and every partial copy made so far is dropped exactly once.",
 ["histories","fault_sequences"],
 "Every variant shape, a clone failure at every field and at every allocation, any later history on both sides.",
 "One test clones one usize and one String box, without failure.",
 [TB,MM],[("clone through the borrowed enum, then re-boxing",TB+" Clone for TaggedBox")],None,["Clone for TaggedBox and containers"])
p("C10","Comparing boxes equals comparing their values",
 "Equality, inequality, the four ordering operators, partial and total comparison of two boxes always give exactly the result the enum's own implementation gives for the two stored values, including user-written implementations that equate or order across variants and values not equal to themselves, and including a box compared with itself or with a copy (for implementations that keep the standard contract that `!=` is the negation of `==`). A panic in the user's comparison reaches the caller and leaves both sides usable.",
 ["inputs","histories","fault_sequences"],
 "All pairs of values and variants, derived and hand-written comparison implementations, same-box and aliased comparisons, a panic at every user comparison call.",
 "Tests compare a few unequal usize values inside callbacks; box-level operators, NaN-like values, cross-variant equality and aliasing are untested.",
 [TB],[("delegation to the borrowed enums",TB+" PartialEq/PartialOrd/Ord for TaggedBox")],None,["==,!=,<,<=,>,>=,partial_cmp,cmp on boxes and containers"])
p("C11","Printing a box prints its value and reports writer errors",
 "Debug and Display of a box write exactly the text the stored enum value writes under the same format options, and the hexadecimal, octal and binary forms write the storage address without the discriminant. When the writer or a field's formatter fails at any point, formatting returns an error, what was written is a prefix of the right text, and the value is untouched.",
 ["inputs","fault_sequences","histories"],
 "All variants and values, all formatting flags (alternate, width, fill, precision, sign), a writer failure at every byte and a formatter failure at every field.",
 "No test formats a box with flags or into a failing writer.",
 [TB,TP,"src/lib.rs"],[("formatting through the borrowed enum",TB+" Debug/Display for TaggedBox"),("address formatting","src/lib.rs impl_fmt")],None,["fmt::Write sinks"])
p("C12","Shared and handed-over boxes behave as if operations ran one at a time",
 "When threads share boxes by reference or hand them to one another, every operation returns, under every interleaving, what it would return if the operations ran one after another; operations on unrelated boxes never influence each other. No interleaving corrupts, drops or duplicates a value, and every operation finishes in a bounded number of its own steps whatever the other threads do, even if one of them panics or stalls in the middle of an operation.",
 ["schedules","fault_sequences","histories"],
 "All interleavings of 2-4 threads at memory-access granularity inside library code, at allocator calls and at user callbacks; panics and stalls of any thread at any of those points.",
 "All tests are single-threaded.",
 [TB,TP,MM],[("no state shared between boxes; observers work on a private temporary copy",MM+" __ref_from_tagged"),("plain word-sized handle",TP)],None,["results of concurrent observers and hand-overs"])
p("C13","Changes made through a shared view take effect once on the stored value",
 "If a stored value is changed through a shared reference obtained from a box (interior mutability such as atomics or cells), the change is applied exactly once to the stored value, so that every later observer on any thread sees it and nothing moved out of the value is ever produced a second time.",
 ["histories","schedules"],
 "All sequences and interleavings of changes through direct references, borrowing callbacks and user implementations run by clone/compare/print.",
 "No test stores a type with interior mutability.",
 [TB,MM,TG],[("direct reference to the block",TB+" as_ref"),("callback on a temporary bitwise copy",MM+" __ref_from_tagged")],None,["as_ref","ref_from_tagged_box","Clone"])
p("C14","Every documented pointer width behaves alike",
 "For each reserved width from 48 to 63 bits the crate and macro-defined enums build, the discriminant capacity is exactly 64 minus the width bits, and any program whose discriminants fit produces the same observable results at that width as at every other, in debug and in optimised builds and for every allocator placement.",
 ["configurations","histories","programs"],
 "All 16 widths times debug and optimised builds times allocator policies, for every history of operations.",
 "The test suite runs at the default width in debug only; at several other widths it did not even compile.",
 [D,"build.rs",MM],[("per-width constants",D),("width selection","build.rs"),("discriminant casts in generated code",MM)],None,["observable logs of the same simulated history in different builds"])
p("C15","Pointer/discriminant packing is lossless for every pair of values",
 "Packing any pointer value and any discriminant that fit the configured width and unpacking them gives both back unchanged, for all of the up to 2^64 pairs.",
 ["inputs"],"All pairs (pointer, discriminant) in range, as integers.",
 "Tests sample a few pairs.",[TP,D],[("shift and mask",TP+" store_discriminant/fetch_discriminant/strip_discriminant")])
p("C16","Thread-safety markers follow the payload",
 "A tagged box or container may be sent to or shared with another thread exactly when its enum may.",
 ["programs"],"All enum types a user can write.","A type-level guarantee; no test states it.",[TB],[("marker field of the enum type",TB+" TaggedBox._type")])
p("C17","Ill-formed macro invocations are rejected at compile time",
 "The macro rejects at compile time tuple variants of more than 32 elements and malformed variant lists, and generates a container one word in size.",
 ["programs"],"All macro invocations.","One compile-fail example exists.",[MM,ME],[("error arms",ME)])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
