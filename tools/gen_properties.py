#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

VLA = "include/cetl/variable_length_array.hpp"
UV = "include/cetl/unbounded_variant.hpp"
FN = "include/cetl/pmr/function.hpp"
IP = "include/cetl/pmr/interface_ptr.hpp"
MEM = "include/cetl/pmr/memory.hpp"
MR = "include/cetl/pf17/memory_resource.hpp"
SYS = "include/cetl/pf17/sys/memory_resource.hpp"
BUFD = "include/cetl/pmr/buffer_memory_resource_delegate.hpp"
BUF = "include/cetl/pf17/buffer_memory_resource.hpp"
ARR = "include/cetl/pf17/array_memory_resource.hpp"
O1 = "include/cetl/pmr/o1heap_memory_resource_delegate.hpp"
OPT = "include/cetl/pf17/optional.hpp"
VAR = "include/cetl/pf17/variant.hpp"
SPAN = "include/cetl/pf20/span.hpp"
SV = "include/cetl/pf17/string_view.hpp"
RTTI = "include/cetl/rtti.hpp"
TTE = "include/cetl/type_traits_ext.hpp"
VH = "include/cetl/visit_helpers.hpp"


def m(name, where):
    return {"name": name, "where": where}


def s(name, meaning, where):
    return {"name": name, "meaning": meaning, "where": where}


P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": list(state), "mechanism": list(mechanism),
                    "observe_at": list(observe), "hook_needed": None},
    })


prop("C01", "A variable-length array always holds the sequence its history dictates",
     "After any sequence of constructions, assignments, insertions, removals, resizes, reservations and shrinks on any "
     "number of variable-length arrays, each array's size, elements, iterators, comparisons and checked accesses agree "
     "with an ordinary sequence subjected to the same history. This remains so when any of those operations is "
     "interrupted by a failing memory allocation or a throwing element operation: every array then still holds only "
     "live, readable elements that came from the operation's inputs, untouched arrays are unchanged, and all "
     "later operations work normally.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "All operation histories over several arrays, all element kinds (trivial, throwing, nothrow-movable, move-only) and "
     "allocator kinds, and every placement of failing allocations / throwing element operations in those histories.",
     "The unit tests run a few dozen fixed scripts; only a handful make an element throw, always at one hand-picked "
     "operation of one container. They say nothing about the state left by a failure at an arbitrary point and about "
     "what later operations do with it.",
     [VLA], [m("reserve/resize/grow/shrink_to_fit", VLA), m("copy_assign_from/move_assign_from", VLA)],
     [s("data/size/capacity", "buffer, live element count, allocated element count", VLA)],
     ["size(), capacity(), operator[], begin()/end(), ==, at(), front(), back()"])

prop("C02", "An array destroys every element and frees every block exactly once",
     "Every element a variable-length array constructs is destroyed exactly once and is never read, assigned or moved "
     "while it does not exist; elements of types that are not trivially copyable are only relocated by their own "
     "constructors. Every memory block it obtains is given back exactly once, to an allocator equal to the one that "
     "supplied it and with the element count it was requested with, and nothing outside a held block is accessed. "
     "Both hold whatever allocations fail and whichever element operation throws, including inside constructors.",
     ["histories", "fault_sequences", "configurations"],
     "All operation histories, element kinds, allocator kinds (equal/unequal, propagating or not, with or without "
     "in-place or moving reallocation) and all placements of failures.",
     "Existing tests count deallocations at the end of short scripts with well-behaved elements; no test throws in the "
     "middle of a relocation, a constructor or an assignment and then accounts for every element and block.",
     [VLA], [m("element destruction and buffer release helpers", VLA), m("reallocate selection", VLA)],
     [s("alloc", "the allocator the current buffer belongs to", VLA)],
     ["allocator/memory_resource calls", "element special member functions"])

prop("C03", "A variable-length array that fails to grow is left exactly as it was",
     "If appending an element, reserving, resizing upwards or shrinking the storage of a variable-length array fails "
     "because memory is unavailable or a new element's construction (or a relocation by copying) throws, the array has the "
     "same elements, size and usable storage as before the call, and the failure is visible to the caller: the "
     "exception that occurred or a length error with exceptions enabled (shrinking absorbs an allocation failure), an "
     "unchanged size without exceptions. The same call succeeds when retried once the cause has gone away.",
     ["histories", "fault_sequences", "configurations"],
     "All array states reachable by histories, all fault points inside the growing operation, with and without C++ "
     "exceptions.",
     "Tests exercise out-of-memory only with allocators of fixed size at the one moment the size is exceeded, with "
     "non-throwing elements; the state after a failure at the k-th relocation step is never examined.",
     [VLA], [m("reserve, resize, grow, ensure_size_plus_one, shrink_to_fit", VLA)],
     [], ["size(), capacity(), element values and addresses before/after", "escaping exception"])

prop("C04", "A variable-length array never exceeds its maximum size",
     "A variable-length array (of bool or of any other type) never holds more elements than its maximum size reports, "
     "where the maximum is the bound given at construction (or taken over by assignment together with the contents) "
     "limited by what its allocator can supply. A request beyond it is refused without effect by a length error, "
     "or, without exceptions, by stopping at the limit.",
     ["histories", "fault_sequences", "inputs"],
     "All histories of growing, copying, moving and assigning between arrays with different bounds, with failures in "
     "between.",
     "Tests check the bound on a freshly constructed array by pushing until it refuses; none reach the bound after "
     "assignments between arrays with different bounds, after a failed growth, or at non-byte bit counts of bool arrays.",
     [VLA], [m("max_size and its use in reserve/grow/resize", VLA)],
     [s("max_size_max", "the user-supplied bound", VLA)], ["size(), max_size(), length_error"])

prop("C05", "Copying and moving arrays between allocators keeps contents and ownership right",
     "A copy of a variable-length array equals its source and leaves the source unchanged; a moved-to array equals what "
     "the source held and the source becomes empty and stays usable. Afterwards each array uses exactly the allocator "
     "the standard allocator rules give it (propagation on copy, on move, selection for copy construction, or the one "
     "explicitly supplied), and a buffer changes hands only between equal allocators or together with its allocator.",
     ["histories", "fault_sequences", "configurations"],
     "All pairs of arrays (states and capacities), all allocator equality and propagation combinations, histories in "
     "which both arrays go on being used, failures during the transfer.",
     "Tests cover selected combinations on fresh arrays; the explicit-allocator constructors with unequal allocators and "
     "the later life of both arrays are not exercised under failures.",
     [VLA], [m("allocator-extended constructors, copy_assign_from, move_assign_from", VLA)],
     [], ["get_allocator(), contents of both arrays, allocator calls"])

prop("C06", "A packed bool array behaves as a sequence of bools through any history",
     "A variable-length array of bool reports the same size, bits, equality and iteration order as a plain sequence of "
     "booleans after any sequence of bit insertions, removals, resizes, fills, copies, moves, reservations and writes "
     "through references and iterators, including when allocations fail in between. Bits beyond the size never "
     "influence any observable result.",
     ["histories", "fault_sequences", "inputs"],
     "All operation histories over several bit arrays, all bit counts modulo 8, all placements of allocation failures, "
     "with and without exceptions.",
     "Tests use a few fixed bit patterns of one array; stale bits in partially used bytes, equality of multi-byte arrays "
     "and the state after failed or moved-from assignments depend on history.",
     [VLA], [m("bool specialization: last-byte fill bookkeeping", VLA)],
     [s("last_byte_bit_fill", "bits used in the last byte", VLA)], ["size(), [], ==, iterators"])

prop("C07", "An unbounded variant holds exactly the last value successfully put into it",
     "After any history of constructions, value assignments, emplacements, copies, moves, swaps, resets and memory "
     "resource changes, an unbounded variant holds exactly the value the last successful operation put in (observable "
     "through typed access, has-value, type size, alignment and type identity), or nothing. An operation interrupted by "
     "a failing allocation or a throwing construction lets the failure reach the caller and leaves each variant involved "
     "either holding what it held or cleanly without a value, and every later operation on it, including copying, moving "
     "and swapping it, works normally.",
     ["histories", "fault_sequences", "configurations"],
     "All histories over several variants (in-place only, memory-resource only, mixed footprint; copyable, movable, "
     "both) and all placements of allocation failures and throwing constructors.",
     "Tests put a variant into the failed state with one scripted throwing constructor and then mostly reset it; copies, "
     "moves and swaps of variants in that state and failures at other points are not covered.",
     [UV], [m("value_size / handlers / raw storage bookkeeping", UV)],
     [s("value_size, value_copier/value_mover/value_destroyer", "what is stored", UV)],
     ["has_value(), valueless_by_exception(), get/get_if, type_size(), type_id()"])

prop("C08", "An unbounded variant never leaks or mismatches its value or its memory",
     "Every value placed into an unbounded variant is destroyed exactly once and never used outside its lifetime. Every "
     "memory block a variant obtains from a memory resource is returned exactly once, to that same resource with the same "
     "size and alignment, even when variants with different resources are swapped, moved or assigned, the resource is "
     "replaced, or an allocation or constructor fails anywhere (including while the variant itself is being constructed).",
     ["histories", "fault_sequences", "configurations"],
     "All histories over several variants sharing or not sharing memory resources and all placements of failures.",
     "Tests use one tracked resource and verify emptiness at the end of scripted success paths; failures inside "
     "constructors and ownership across swaps of failed variants are not enumerated.",
     [UV], [m("storage acquisition/release, swapVariants, set_memory_resource", UV)],
     [s("allocated_buffer", "block owned by the variant", UV)], ["memory_resource calls", "value special members"])

prop("C09", "A pmr function calls exactly the target last assigned and owns it properly",
     "Calling a function object invokes the target most recently and successfully assigned to it (directly, by copy, "
     "move or swap) exactly once with the given arguments and returns its result or lets its exception through; an empty "
     "one reports a bad call. Targets are destroyed exactly once and their memory goes back to the resource it came from, "
     "and after any failed construction or assignment the function is either empty or still has its old target, says "
     "which consistently, and can be reassigned.",
     ["histories", "fault_sequences", "configurations"],
     "All histories over several functions with small and large targets, with and without memory resources, and all "
     "placements of failing allocations, throwing target copies and throwing calls.",
     "Tests assign targets in fixed scripts; the only failure covered is a missing memory resource.",
     [FN, UV], [m("function constructors, assignment, reset, swap", FN)],
     [s("handler pointer + type-erased storage", "must agree on emptiness", FN)],
     ["operator(), operator bool, target lifetimes, memory_resource calls"])

prop("C10", "Factory-made smart pointers release object and memory exactly once, correctly",
     "An object created through the allocator-aware factories or held by the provided deleters is destroyed exactly once "
     "as its concrete type and its memory is returned exactly once to the resource it came from with the right size and "
     "alignment, also after moves, resets and swaps of the pointers. If allocation fails the caller gets a null "
     "pointer or the exception, and if construction throws, the exception arrives with the memory already returned "
     "and no destructor run on the object that never existed.",
     ["histories", "fault_sequences"],
     "All histories of creating, moving, releasing and resetting several pointers over several resources, concrete types "
     "with single and multiple inheritance, all placements of failing allocations and throwing constructors.",
     "Tests create a pointer or two in straight-line code; a throwing constructor is tested for one of the two factories.",
     [IP, MEM], [m("make_unique of both factories, deleters", IP), m("deleter state moves", MEM)],
     [s("deleter", "resource/allocator, size, alignment or object count", MEM)],
     ["memory_resource calls", "object constructor/destructor"])

prop("C11", "Live blocks of a buffer resource never overlap and are aligned and in bounds",
     "At any moment the blocks a single-buffer memory resource (over a caller's buffer or its own array) has handed out "
     "and not yet taken back are disjoint, have the requested alignment and size, and lie wholly inside its buffer or "
     "inside a block obtained from its upstream for that request. Data written to a live block is preserved until "
     "the block is returned or successfully reallocated, and a successful reallocation keeps the common prefix when the "
     "alignment is unchanged.",
     ["histories", "fault_sequences", "inputs"],
     "All interleavings of allocate/deallocate/reallocate by several clients of one resource, sizes and alignments "
     "around the buffer size, upstream failures at any call.",
     "Tests make one or two allocations in sequence; no test fails a reallocation while the block stays in use and then "
     "allocates again.",
     [BUFD, BUF, ARR], [m("in-use bookkeeping in allocate/reallocate/deallocate", BUFD)],
     [s("in_use", "the part of the buffer currently handed out", BUFD)],
     ["addresses and contents of live blocks", "upstream calls"])

prop("C12", "A buffer resource routes and reports every request correctly when things fail",
     "A failed allocation or reallocation on a single-buffer memory resource changes nothing: blocks handed out before "
     "remain valid and owned, and the failure is reported by bad_alloc (a null result without exceptions or for "
     "reallocation). Every block obtained from the upstream goes back to it exactly once with its size and alignment when "
     "returned, the upstream never receives a block it did not supply nor an allocation above the configured upstream "
     "limit, and the buffer becomes available again as soon as its block is returned.",
     ["histories", "fault_sequences"],
     "All interleavings of client requests and all placements of upstream failures and refusals.",
     "Tests use an upstream that always or never succeeds and do not continue after a failed request.",
     [BUFD, BUF, ARR], [m("upstream delegation and limits", BUFD)],
     [], ["upstream calls", "return values / exceptions"])

prop("C13", "A monotonic resource hands out disjoint aligned blocks and survives failure",
     "Every block allocated from a monotonic buffer resource since its last release is disjoint from all others, aligned "
     "as requested and inside the initial buffer or memory obtained from upstream, and keeps its contents. Every request "
     "completes with a block or reports failure after a bounded number of upstream requests; a failed upstream request "
     "loses nothing and later requests that can be satisfied still are.",
     ["histories", "fault_sequences", "inputs"],
     "All sequences of requests (sizes from zero to the whole address space, alignments up to large powers of two), "
     "stacked resources, upstream failures at any point, minimally aligned upstream memory.",
     "Tests use a few small requests and well aligned upstream memory that never fails mid-way.",
     [MR, SYS], [m("growth loop and carving of the current buffer", MR)],
     [s("buffer chain", "initial buffer and upstream buffers", MR)], ["returned addresses", "upstream calls"])

prop("C14", "Releasing a monotonic resource returns everything and makes it reusable",
     "Releasing or destroying a monotonic buffer resource returns every upstream block it obtained exactly once, with the "
     "size and alignment it was requested with, and nothing else; individual deallocations return nothing. After a "
     "release the resource works as if freshly constructed, including full reuse of its initial buffer.",
     ["histories", "fault_sequences"],
     "All histories of requests, individual deallocations, failures and repeated releases.",
     "Tests release once after a fixed script of successful allocations.",
     [MR, SYS], [m("release and destructor", MR)], [s("buffer chain", "blocks to be returned", MR)],
     ["upstream calls", "addresses after release"])

prop("C15", "The polymorphic allocator passes its resource down and keeps requests intact",
     "A polymorphic allocator asks its memory resource for exactly the bytes and alignment the objects need, returns them "
     "the same way, and refuses counts whose byte size cannot be represented without asking. Objects it constructs that "
     "take an allocator, including members of pairs and elements of nested containers, use the same resource, so all "
     "their memory comes from and returns to it; what is given as rvalue is moved, not copied, and construction failures propagate and leave nothing behind.",
     ["histories", "fault_sequences", "programs"],
     "All histories of nested containers over several resources, including copies between containers on different "
     "resources, and all placements of failing allocations and throwing constructors.",
     "Tests check single constructor calls; nested containers under allocation failure and cross-resource assignment are "
     "not covered.",
     [MR], [m("allocate/deallocate/construct of the polymorphic allocator", MR)], [], ["memory_resource calls"])

prop("C16", "The system memory resource fails cleanly and keeps data across reallocation",
     "The default new/delete memory resource returns suitably aligned storage or reports failure (bad_alloc, or null "
     "without exceptions), including when the platform allocator is exhausted or the alignment is unsupported. "
     "Reallocation keeps the common prefix on success and leaves the old block valid and owned on failure, every "
     "platform block is freed exactly once, and the null resource never supplies memory.",
     ["histories", "fault_sequences"],
     "All histories of requests by several clients and all placements of platform allocation failures.",
     "Tests cannot make the platform allocator fail.",
     [SYS, MR], [m("new/delete resource implementation", SYS), m("null resource", MR)], [],
     ["malloc/realloc/free calls", "return values / exceptions"])

prop("C17", "The o1heap adaptor maps heap results to the memory-resource contract",
     "Memory obtained through the o1heap adaptor comes from its heap, each block is returned to that heap exactly once, "
     "and exhaustion is reported as bad_alloc (null without exceptions) without disturbing live blocks, over any history "
     "of requests and heap failures.",
     ["histories", "fault_sequences"],
     "All histories of several clients and all placements of heap refusals.",
     "The only test needs the real heap, which is not part of the build, and performs a single allocation.",
     [O1], [m("allocate/deallocate forwarding", O1)], [], ["heap calls", "return values / exceptions"])

prop("C18", "Replacing the global memory resources is atomic between threads",
     "With any number of threads concurrently reading and replacing the default memory resource and the new/delete "
     "resource, every read returns a resource that was current at some moment during the call and every replacement "
     "returns exactly the resource it displaced, so each installed resource is displaced at most once and none is lost. "
     "Replacing with null installs the resource that is the system default at some moment during the call, and no two "
     "accesses form a data race.",
     ["schedules", "histories"],
     "All interleavings of the individual memory accesses of concurrent set/get calls from several threads.",
     "The tests are single threaded.",
     [SYS], [m("atomic singletons and exchange", SYS)],
     [s("default / new-delete resource registers", "process-wide pointers", SYS)],
     ["return values of set_*/get_* calls"])

prop("C19", "Global resources are created once, even on concurrent first use",
     "However many threads make the first use of the null, new/delete and default memory resources (or of a variant's "
     "dispatch machinery) at the same time, all of them obtain the same fully constructed object, and a value installed by "
     "one thread is never overwritten by another thread's initialisation.",
     ["schedules"],
     "All interleavings of first calls from several threads in a fresh process.",
     "Tests touch the singletons from one thread, after they have been initialised.",
     [SYS, MR, VAR], [m("function-local static initialisation", SYS)],
     [s("singleton storage", "constructed on first use", SYS)], ["returned pointers", "memory access trace"])

prop("C20", "Independent objects can be used from different threads without synchronisation",
     "Threads that use only their own containers, variants, functions, smart pointers and memory resources never race "
     "with or influence each other: under any interleaving each thread sees the results it would see running alone, and "
     "no two unordered conflicting accesses to the same memory occur.",
     ["schedules", "histories"],
     "All interleavings of several threads running arbitrary operation histories on disjoint objects.",
     "The tests are single threaded; a hidden shared cache or scratch buffer would pass all of them.",
     [VLA, UV, FN, IP, MEM, MR, SYS, BUFD, OPT, VAR],
     [m("absence of hidden shared mutable state", "include/cetl")], [], ["results per thread", "memory access trace"])

prop("C21", "Concurrent readers of a shared object never race",
     "Any number of threads may concurrently call read-only operations (element access, comparison, iteration, size and "
     "type queries, typed access, copying from) on the same container, variant, optional, function or memory "
     "resource: no data race occurs and every thread observes the object's unchanged value.",
     ["schedules"],
     "All interleavings of read-only operations by several threads on shared objects of every kind.",
     "The tests are single threaded; a mutable cache filled by a const operation would pass all of them.",
     [VLA, UV, FN, MR, OPT, VAR], [m("const operations do not write", "include/cetl")], [],
     ["results per thread", "memory access trace"])

prop("C22", "An optional is engaged exactly when it holds a live value, whatever throws",
     "After any history of constructions, assignments, emplacements, resets, swaps, copies and moves between optionals, an "
     "optional reports a value exactly when it holds a live object, and that object has the value the history "
     "dictates. If an operation of the contained type throws, the exception reaches the caller and engagement is as the "
     "standard prescribes (unchanged for assignment and swap, empty after a failed emplace), with every contained object "
     "destroyed exactly once.",
     ["histories", "fault_sequences"],
     "All histories over several optionals (same and converting types) and all placements of throwing constructors and "
     "assignments.",
     "Tests never make the contained type throw in a copy or move.",
     [OPT], [m("engaged flag and storage union", OPT)], [s("engaged", "value present", OPT)],
     ["has_value(), value(), object lifetimes, exceptions"])

prop("C23", "A variant always holds one live alternative or is valueless, whatever throws",
     "After any history of constructions, assignments, emplacements, swaps, copies, moves and visits, a variant's index "
     "names the one alternative that is alive in it with the value the history dictates, or it is valueless and says so. "
     "Exceptions from alternatives reach the caller, every alternative object is destroyed exactly once, and valueless "
     "variants can be copied, moved, compared, swapped, assigned and destroyed; accessing or visiting them reports bad access.",
     ["histories", "fault_sequences", "configurations"],
     "All histories over several variants with repeated, throwing, nothrow and trivial alternatives, in C++14 and later "
     "builds, and all placements of throwing operations.",
     "Tests cover each special member once with a scripted throw; sequences that continue with a valueless variant and "
     "combinations of failing operations are not explored.",
     [VAR], [m("index maintenance in set/init/reset", VAR)], [s("index", "active alternative or npos", VAR)],
     ["index(), valueless_by_exception(), get/get_if/visit, object lifetimes"])

prop("C24", "A variant assignment never loses its value when the standard says it must not",
     "When copy assignment or converting assignment to a variant throws, the variant keeps its previous value untouched "
     "whenever the incoming alternative differs and is nothrow-move-constructible but not nothrow-constructible from the "
     "source, and stays on the same alternative when the alternatives match; the same goes for a swap "
     "of equal alternatives. It becomes valueless only if "
     "constructing the new alternative in place throws in emplacement, move, or an assignment for which no safe "
     "intermediate copy exists, or a swap of different ones; the source of a copy is never changed.",
     ["histories", "fault_sequences"],
     "All pairs of variant states and alternative kinds, all throwing points during the assignment.",
     "Tests check the fallback for selected alternative pairs once, not after arbitrary histories and not at every "
     "throwing point.",
     [VAR], [m("construct_copy / convert_from side copy", VAR)], [], ["index(), value, exceptions"])

prop("C25", "A whole system on stacked resources conserves memory through exhaustion",
     "In a program whose containers, variants, functions and smart pointers share a stack of memory resources (monotonic "
     "over buffer over system, in any nesting), all live objects keep their values and never share memory, whichever "
     "layer runs out of memory or fails at whatever moment. When all objects are gone and the stack is torn down every "
     "layer has returned to the layer below exactly what it obtained, and while they live, memory that becomes "
     "available again is usable again.",
     ["histories", "fault_sequences", "configurations"],
     "All stack shapes, interleavings of many client objects of all kinds on the shared stack, and all placements of "
     "failures in any layer.",
     "Tests exercise one component at a time with at most one resource below it.",
     [VLA, UV, FN, IP, MEM, MR, BUFD, BUF, ARR, SYS],
     [m("interaction of containers with reallocate/deallocate of stacked resources", BUFD)], [],
     ["resource calls at every layer", "object values"])

prop("C26", "Without exceptions, running out of memory never crashes or corrupts anything",
     "In builds without C++ exceptions, any operation of the containers, variants, functions, factories, allocators and "
     "memory resources that cannot get memory reports it the documented way (null result, unchanged or clamped size, no "
     "value, empty object) and returns normally. Nothing is accessed through a null or undersized block, "
     "nothing leaks, and every object involved stays usable and consistent.",
     ["histories", "fault_sequences", "configurations"],
     "All operation histories in exception-free builds and all placements of allocation failures.",
     "The tests that run are built with exceptions enabled; exception-free behaviour is not executed at all.",
     [VLA, UV, FN, IP, MEM, MR, BUFD], [m("null checks on allocation results", "include/cetl")], [],
     ["sizes, has_value, null pointers, allocator calls"])

prop("C27", "Failures thrown by user code or allocators reach the caller unchanged",
     "An exception thrown by a user element, value, callable or memory resource inside any operation not declared "
     "non-throwing leaves that operation unchanged in type and content and is never turned into program termination, "
     "swallowed (storage shrinking absorbing an allocation failure excepted) or replaced; and operations that meet no failure "
     "and no documented limit never throw.",
     ["histories", "fault_sequences"],
     "All operation histories over all component kinds and all placements of throwing user operations and allocations.",
     "Only a few tests throw at all; a wrong non-throwing specification is invisible until that operation throws.",
     [VLA, UV, FN, IP, MEM, MR, BUFD, OPT, VAR], [m("noexcept specifications and exception paths", "include/cetl")],
     [], ["exception identity at the call site", "process termination"])

prop("C28", "Span views always denote exactly the elements they were made from",
     "A span and every subview, iterator or byte view derived from it refer to exactly the requested elements of the "
     "underlying sequence, in order, without copying or going out of bounds for in-range arguments.",
     ["inputs"], "All element sequences, extents, offsets and counts.",
     "Tests use a few fixed arrays and offsets.", [SPAN], [m("subspan/first/last/iterators", SPAN)], [],
     ["data(), size(), operator[]"])

prop("C29", "String views search, compare and slice exactly like the standard type",
     "Every search, comparison, slicing and copying operation of a string view gives the result std::string_view gives for "
     "the same characters and arguments.",
     ["inputs"], "All character sequences and positions.", "Tests use a few fixed strings.",
     [SV], [m("find/rfind/compare/substr", SV)], [], ["return values"])

prop("C30", "Run-time type casts find a base exactly when it exists in the hierarchy",
     "A run-time cast yields the subobject of the requested type if and only if the object's hierarchy contains that type "
     "along the searched branches, for every class hierarchy built with the provided helper.",
     ["programs"], "All class hierarchies and target types.", "Tests use a few fixed hierarchies.",
     [RTTI], [m("recursive search in the helper", RTTI)], [], ["cast results"])

prop("C31", "Type-level selection picks the standard overload for every type list",
     "Type-list queries, non-narrowing conversion selection and overload-set helpers choose the same alternative the C++17 "
     "rules choose, for every list of types.",
     ["programs"], "All type lists and source types.", "Tests cover selected type lists at compile time.",
     [TTE, VH, VAR], [m("best_conversion_index", TTE), m("overloaded", VH)], [], ["compile-time constants, chosen alternatives"])

prop("C32", "An array that has the storage it needs never asks for memory or moves elements",
     "Within the capacity a variable-length array (of bool or of any other type) reports, reserving, appending, resizing, assigning a "
     "value or another array (with the allocator kept), removing and clearing never ask the allocator for memory, never move the elements that stay (element addresses "
     "remain valid) and never give up capacity, so they cannot fail for lack of memory. Constructing an empty array asks for no memory, and "
     "moving an array to one with an equal or propagating allocator takes the elements over where they are without "
     "asking for memory. Shrinking, when no allocation fails, leaves no more capacity than the elements need and never "
     "enlarges it.",
     ["histories", "fault_sequences", "configurations"],
     "All array states reachable by histories (after failures, bound changes, moves, shrinks), element kinds and allocator kinds.",
     "Tests look at capacity after a few fixed calls; that an operation needs no memory shows only when memory is exhausted at "
     "exactly that moment, in states reached by a history.",
     [VLA], [m("reserve, ensure_size_plus_one, resize, move construction and assignment, shrink_to_fit", VLA)],
     [s("capacity", "allocated element count", VLA)], ["allocator and memory_resource calls, data(), capacity()"])

prop("C33", "Holders ask for memory only for values that do not fit inside them",
     "An unbounded variant or pmr function with in-place storage asks its memory resource for memory only while a value (or call target "
     "with its bookkeeping) larger than that storage is being put in or copied. Making an empty holder, moving, swapping movable "
     "holders, resetting, reading and calling never ask for memory, whatever the holders held before and whichever "
     "earlier operation failed.",
     ["histories", "fault_sequences", "configurations"],
     "All histories over holders with and without in-place storage, values below, at and above the in-place size, failures in between.",
     "Tests count allocations in a few fixed scripts; a stray request is harmless until memory is exhausted at that moment.",
     [UV, FN], [m("choice between in-place and allocated storage, storage transfer on move", UV)],
     [s("in-place buffer and allocated buffer", "where the value is", UV)], ["memory_resource calls"])

prop("C34", "Operations made from inside user code called by the library work normally",
     "While the library runs user code inside an operation on one object (constructing, copying, moving, comparing or destroying an "
     "element or value, calling a function target or visitor, or serving a memory request), that code may itself use other library "
     "objects, also of the very same types, to any depth, and a function may call itself. Every operation, outer and inner, then has the "
     "result it would have without the nesting, also when one of them fails with an exception or runs while an exception is unwinding, and "
     "every value and memory block is still released exactly once.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "All histories over several sets of objects of every kind and all ways of running operations of one set inside user code called on "
     "behalf of another, with failures in both.",
     "Tests use element types and callbacks that touch nothing but themselves; hidden per-thread or static scratch state shows only when "
     "a second operation of the same kind starts in the middle of the first.",
     [VLA, UV, FN, OPT, VAR, MEM, IP], [m("swap, assignment and visitation through user code", UV), m("call dispatch", FN),
                                             m("alternative replacement and visit", VAR), m("type-erased deletion", IP)],
     [], ["values, exceptions, memory_resource calls"])

prop("C35", "Global resources and all objects stay usable until the program has ended",
     "The null, new/delete and default memory resources remain alive, keep their identity and keep working for the whole program: however the "
     "creation of objects with static storage duration is ordered relative to the first use of the library, their destructors may still "
     "obtain, replace and use the global resources and return memory taken from them, up to the very last one. Objects of all kinds used or "
     "destroyed at that time behave as at any other time.",
     ["schedules", "histories"],
     "All orders of static objects and first uses of the library from one or several threads, and all histories of operations before the "
     "end of the program and inside the destructors run at its end.",
     "Tests end before static objects are destroyed, and nothing checks what happens after the last test; which object goes first depends on "
     "which was used first.",
     [SYS, MR], [m("null_memory_resource, new_delete_resource, get_default_resource singletons", SYS)],
     [s("global resource singletons", "built on first use, never destroyed", SYS)], ["resource identity, allocate and deallocate in destructors of static objects"])

prop("C36", "Objects can be handed from one thread to another",
     "An object of any kind (container, variant, optional, function, smart pointer, memory resource and the blocks it handed out) may be made "
     "by one thread, used by others and destroyed by yet another, as long as the threads pass it on through a lock or another means of "
     "synchronisation, and also when the thread that made or used it has ended. Every operation then has the result it would have if one "
     "thread performed the same operations in the same order, nothing is lost or released twice, and no two accesses form a data race.",
     ["schedules", "histories", "fault_sequences"],
     "All interleavings of several threads that pass objects of every kind to each other, with all histories and failures, and threads that "
     "end at any time.",
     "The tests are single threaded; state kept per thread (a thread-local cache, the identity of the creating thread) passes all of them.",
     [VLA, UV, FN, OPT, VAR, MEM, IP, BUFD, MR, SYS],
     [m("absence of hidden state bound to a thread", "include/cetl"), m("buffer in use or free", BUFD), m("type-erased deletion", IP)], [],
     ["values, exceptions and memory_resource calls per object", "memory access trace"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
