#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
I = "include/boost/variant/"
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": [f if f.startswith(("include", "doc")) else I + f for f in files],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "observe_at": list(observe), "hook_needed": hook}}
V = I + "variant.hpp"
props = [
P("C01", "A variant is never empty, whatever fails",
  "After construction and until destruction a variant always holds exactly one live, fully constructed value of one of its bounded types, also after any sequence of successful and failed copies, moves, assignments and swaps. which(), type(), empty(), get and visitation all agree on that value, and every further operation on the variant stays defined.",
  ["histories", "fault_sequences", "programs"],
  "every history of assignments, constructions and swaps on two variants, with an exception at any throwing content operation or allocation (also two per operation), for every mix of throwing/nothrow copy, move and default construction of the bounded types",
  "variant_nonempty_check and test5 throw at a few hand-picked points from freshly constructed variants; they never continue from the state a failure left behind, and sample a handful of throwing/nothrow mixes.",
  ["variant.hpp", "detail/backup_holder.hpp", "detail/visitation_impl.hpp"],
  [("backup_assigner: move the old content aside, restore it when the new content fails", V), ("assigner/move_assigner: dispatch on nothrow copy/move and on a fallback type", V), ("visitation decodes the discriminator, including heap backup", I + "detail/visitation_impl.hpp")],
  [("which_", "index of the content; negative: content is behind a heap backup pointer", V), ("storage_", "content, or backup pointer", V)],
  ["which()", "type()", "get", "apply_visitor", "object registry"]),
P("C02", "Every content object is destroyed exactly once and nothing leaks",
  "Over any history, including failed operations, every content object a variant creates is destroyed exactly once, as the type it was created as, and never used before its construction or after its destruction. Every allocation is released once, and after all variants are destroyed no object and no allocation remains.",
  ["histories", "fault_sequences", "programs"],
  "every history of operations with faults at every throwing point, on all storage states (in place, heap backup, moved-from, recursive_wrapper)",
  "The tests count instances in test1/test3/test5 for a few straight-line histories; leaks on the failure paths of failure paths are not reached.",
  ["variant.hpp", "detail/backup_holder.hpp", "recursive_wrapper.hpp"],
  [("destroy_content visits the active content only", V), ("backup_holder owns the backup and frees it on destruction", I + "detail/backup_holder.hpp"), ("recursive_wrapper deletes what it allocated", I + "recursive_wrapper.hpp")],
  [("backup_holder::backup_", "owning pointer to content kept after a failed assignment", I + "detail/backup_holder.hpp")],
  ["lifetime registry of instrumented types", "operator new/delete ledger", "ASan"]),
P("C03", "Copies, conversions and assignments have value semantics",
  "A copy construction or assignment that returns normally leaves the target with the source's alternative and value, leaves the source unchanged and shares nothing with it; assignment returns its left operand, and assigning a variant to itself, or assigning it its own content or a member object of its own content that is of a bounded type, gives the value named by the right operand. A normal operation never fails by itself: an exception leaves an operation only if a content operation or allocation it used threw. A default-constructed variant holds the value-initialized first bounded type.",
  ["histories", "programs"],
  "every history of copies, assignments and in-place writes over two variants, every storage state of source and target, every value category of the right operand",
  "test1/test2/test9 copy and assign between fresh variants of a few types; none assigns from or to variants that went through failed assignments, and aliasing right-hand sides are not covered.",
  ["variant.hpp", "detail/initializer.hpp"],
  [("variant_assign / assign / move_assign", V), ("copy_into / move_into", V), ("initializer", I + "detail/initializer.hpp")],
  [], ["get", "apply_visitor", "operator=="]),
P("C04", "A failed assignment leaves the documented state and the original exception",
  "If an assignment throws, the target still holds its previous value (or, when both sides held the same alternative, the value its content assignment left); only if some bounded type is nothrow default-constructible may it instead hold the default value of such a type, and of boost::blank if that is a bounded type. Assigning a value of the type the variant holds, or assigning between variants that hold the same alternative, both in place or both on the heap, assigns to the content and fails only if that does. The source of a copy is unchanged, a failed construction changes no variant, and the exception that escapes is the one thrown by the content operation or allocation.",
  ["histories", "fault_sequences", "programs"],
  "every assignment (copy, move, converting) in every reachable state, with every single fault and pair of faults, for every mix of throwing/nothrow traits",
  "variant_nonempty_check only asserts which() is one of two indices; the value kept, the state of the source and the identity of the exception are not asserted, and no second failure is tried.",
  ["variant.hpp", "doc/design.xml"],
  [("construct_fallback", V), ("backup_assign_impl restores the backup", V), ("find_fallback_type prefers boost::blank", V)],
  [("fallback_type_", "the nothrow default-constructible type used when a failed assignment has no value to keep", V)],
  ["value and alternative after the exception", "exception identity"]),
P("C05", "swap exchanges the contents, or leaves two valid variants",
  "A swap (member or free) that returns normally leaves each variant with exactly the alternative and value the other had, in any combination of alternatives and storage states, and leaves a variant unchanged when swapped with itself. If both hold the same alternative, the contents' own swap is used, and the operation fails only if that does. A swap that throws leaves both variants valid, holding values that were there before or a documented default, with nothing leaked.",
  ["histories", "fault_sequences", "programs"],
  "every pair of reachable states of two variants, with faults at every point of the swap",
  "variant_swap_test swaps two or three fresh variants and injects no failure.",
  ["variant.hpp"],
  [("swap_with for equal alternatives, three moves otherwise", V), ("free swap", V)], [], ["both variants after swap"]),
P("C06", "Moves move, support move-only types, and keep their noexcept promise",
  "Moving from a variant, or constructing or assigning one from an rvalue, transfers the value without copying content whose type has a nothrow move constructor, works for move-only bounded types, and leaves the source valid with the same alternative. Move construction is noexcept exactly if all bounded types are nothrow move-constructible, move assignment exactly if they are also nothrow move-assignable, and no operation ever terminates the program because of an exception it declared impossible.",
  ["histories", "fault_sequences", "programs"],
  "all move operations from every reachable state with every fault, over type lists mixing nothrow-move, throwing-move, copy-only and move-only types",
  "rvalue_test checks a few move-only types and one noexcept expression; it does not mix throwing and nothrow moves nor continue after failures.",
  ["variant.hpp", "detail/move.hpp", "recursive_wrapper.hpp"],
  [("move_assigner", V), ("is_variant_move_noexcept_constructible/assignable", V), ("convert_move_into", V)], [], ["copy/move counters", "noexcept()", "std::terminate"]),
P("C07", "Visitation calls the right overload once, on the content itself",
  "apply_visitor calls the visitor exactly once, with the content object itself as its actual bounded type (recursive_wrapper is transparent), for every alternative and storage state, and passes on the constness and value category of the variant: an lvalue variant never hands out an rvalue, an rvalue variant hands out an rvalue. The visitor's result comes back with its declared type (including references, references to the content, move-only values and void); where a visitor without result_type returns different types from different overloads, the result is of their common type and keeps its value. A lambda or generic callable works like a class, an exception from the visitor propagates unchanged, and neither the content nor the visitor is copied.",
  ["inputs", "histories", "programs"],
  "all alternatives of variants of 1..25 types, all storage states, all variant categories, all visitor categories and result types, throwing and mutating visitors",
  "variant_visit_test visits two-alternative variants in the in-place state; const/rvalue combinations and visitation of heap-kept or moved-from content are not enumerated.",
  ["apply_visitor.hpp", "detail/apply_visitor_unary.hpp", "detail/visitation_impl.hpp", "variant.hpp", "static_visitor.hpp"],
  [("visitation_impl: switch over the discriminator, unrolled in chunks", I + "detail/visitation_impl.hpp"), ("invoke_visitor: unwrap and forward the content", V), ("apply_visitor overloads", I + "detail/apply_visitor_unary.hpp")],
  [], ["visitor's record of calls, addresses, types and categories"]),
P("C08", "Visiting several variants dispatches on all of them at once, in order",
  "Applying a visitor to two or more variants calls it exactly once, with the contents of all operands in operand order, each as its own type and with the constness and value category of its operand, for every combination of alternatives, and returns its result. No operand's content is copied, moved or changed by the dispatch itself, the same variant may be several operands, and an exception from the visitor propagates.",
  ["inputs", "programs"],
  "all combinations of alternatives of 2, 3, 4 and 5 operands, all operand categories, storage states, result types and delayed (curried) application",
  "variant_multivisit_test and variant_visit_test run some dozen combinations; a mix-up of operand order or category for other combinations goes unseen.",
  ["multivisitors.hpp", "detail/apply_visitor_binary.hpp", "detail/multivisitors_cpp11_based.hpp", "detail/multivisitors_cpp14_based.hpp"],
  [("apply_visitor_binary_unwrap/invoke", I + "detail/apply_visitor_binary.hpp"), ("one_by_one_visitor_and_value_referer, wrap/unwrap", I + "detail/multivisitors_cpp11_based.hpp")],
  [], ["visitor's record of operands"]),
P("C09", "get returns the content of exactly the named type, or fails",
  "For every variant, in every storage state, get by pointer returns the address of the content if the contained type is the requested one (ignoring added constness and recursive_wrapper) and null otherwise or for a null pointer; get by reference returns that very object, with the constness and value category of the variant, or throws bad_get. strict_get, relaxed_get and get agree on bounded types, and relaxed_get of a type that is not bounded yields null or bad_get.",
  ["inputs", "histories", "programs"],
  "every alternative x every requested type x pointer/reference/const/rvalue form x storage state, for lists of up to 25 types including references, const types, base/derived pairs and recursive_wrapper",
  "variant_get_test checks a fixed set of lists and only variants that were just constructed.",
  ["get.hpp", "detail/element_index.hpp"],
  [("get_visitor compares types and yields the address", I + "get.hpp"), ("holds_element / element_index", I + "detail/element_index.hpp")], [], ["returned address or bad_get"]),
P("C10", "polymorphic_get returns the base subobject of the actual content",
  "polymorphic_get<U> yields the U subobject of the content exactly if the contained type (the type referred to, for a reference alternative; the wrapped type, for a recursive_wrapper) is U or derived from U, with the correct address even under multiple or virtual inheritance, and never as non-const if the variant or the alternative is const; otherwise the pointer form yields null and the reference form throws bad_polymorphic_get. The strict and relaxed forms agree on requested types that some bounded type is or derives from.",
  ["inputs", "programs"],
  "all contents x all requested bases over a family of hierarchies (single, multiple, virtual, empty, two-level base, conversions only), const and non-const, wrapped, reference and const alternatives, all storage states",
  "variant_polymorphic_get_test covers two hierarchies with offset-zero bases mostly.",
  ["polymorphic_get.hpp", "detail/element_index.hpp"],
  [("polymorphic_get_visitor: is_base_of/is_same selection and upcast", I + "polymorphic_get.hpp")], [], ["returned address or bad_polymorphic_get"]),
P("C11", "Comparison orders by alternative, then by the contents' own operators",
  "Two variants are equal exactly if they hold the same alternative and their contents compare equal with the content's ==; one is less than another exactly if its alternative comes first or, for the same alternative, if its content is < the other's content, with operands in that order. !=, >, <= and >= are the standard complements of these, the storage state never matters, and contents of different alternatives are never compared.",
  ["inputs", "histories", "programs"],
  "all pairs of states of two variants over all relation tables for == and < on two values (256 combinations), including partial orders and relations that are not reflexive",
  "variant_comparison_test compares well-behaved content; argument order and derived operators are only distinguishable with asymmetric or partial relations, which are not tried.",
  ["variant.hpp"],
  [("comparer visitor; equal_comp, less_comp", V), ("operators ==, <, !=, >, <=, >=", V)], [], ["results of the six operators", "log of content comparisons"]),
P("C12", "Equal variants hash equally, and the alternative takes part in the hash",
  "hash_value, boost::hash and std::hash of a variant agree, depend only on the alternative held and on the hash of its value (not on storage state, history, address or other variants), and so give equal hashes to equal variants. Variants holding equal-hashing values in different alternatives hash differently.",
  ["inputs", "histories"],
  "all alternatives x all values of the alphabet x all storage states, including recursive variants and variants of variants",
  "hash_variant_test compares a few fresh values; hashing of heap-kept content or of equal payloads in many alternatives is not covered.",
  ["detail/hash_variant.hpp", "detail/std_hash.hpp"],
  [("variant_hasher combines which() with the content's hash", I + "detail/hash_variant.hpp"), ("std::hash specialization", I + "detail/std_hash.hpp")], [], ["hash values"]),
P("C13", "Converting construction picks the best alternative by overload resolution",
  "Constructing a variant from a value of any other type, or assigning one (which takes lvalues as const), selects the alternative that overload resolution would select among functions taking each bounded type, holds the converted value, and is available as a constructible/assignable trait if that conversion exists (a recursive_wrapper alternative need only be available from its own type). Lvalue arguments are not modified, and types from which no alternative can be constructed are rejected by the traits.",
  ["inputs", "programs"],
  "all pairs (source type and category) x (list of bounded types) from an alphabet of arithmetic types, enums, pointers, classes with converting constructors or conversion operators, strings and base/derived types, against a plain overload set",
  "overload_selection, test2 and test7 try a fixed set of conversions.",
  ["variant.hpp", "detail/initializer.hpp"],
  [("initializer: one overload per bounded type, chained with using", I + "detail/initializer.hpp"), ("is_variant_constructible_from", V)], [], ["which() and value", "is_constructible/is_assignable"]),
P("C14", "Conversion between different variant types converts the content",
  "Constructing or assigning a variant from a different variant type, all of whose bounded types convert to the target, gives the best conversion of the source's actual content, from any storage state of the source, by copy (source unchanged) or by move; if the source variant type is itself a bounded type the whole variant is stored as that alternative. A failing conversion leaves the target as a failed assignment does, and nothing leaks.",
  ["histories", "fault_sequences", "programs"],
  "all source contents and storage states x all target states x copy/move/construct/assign x all faults",
  "test2 converts a few fresh variants; sources kept in a heap backup, nested variants and failing conversions are not covered.",
  ["variant.hpp"],
  [("convert_copy_into / convert_move_into", V), ("convert_construct_variant decides foreign vs bounded", V)], [], ["target and source contents"]),
P("C15", "Recursive variants are deep, independent values",
  "Recursive variants built with make_recursive_variant or recursive_wrapper behave as finite trees: copies are deep and independent, equality, ordering, hashing and visitation see the whole tree, moves and swaps transfer it, and destruction releases every node once. This also holds when any allocation or content operation fails while a tree is built, copied, assigned or swapped.",
  ["inputs", "histories", "fault_sequences"],
  "all trees up to a node bound over leaves and one- and two-child nodes, all pairs for assignment, swap and comparison, all failure points",
  "recursive_variant_test builds a few fixed trees and injects no failure.",
  ["recursive_variant.hpp", "recursive_wrapper.hpp", "detail/enable_recursive.hpp", "variant.hpp"],
  [("recursive_wrapper holds a heap copy and unwraps in visitation", I + "recursive_wrapper.hpp"), ("enable_recursive substitution of recursive_variant_", I + "detail/enable_recursive.hpp")], [], ["tree contents", "node registry"]),
P("C16", "make_recursive_variant substitutes the placeholder everywhere it occurs",
  "In make_recursive_variant, every occurrence of recursive_variant_ inside a bounded type - as template argument at any depth, pointee, referred-to type, parameter or result of a pointed-to function, with const or volatile anywhere - denotes the variant itself, and types that do not mention it are unchanged. Such a variant can be built from, visited as and converted to exactly those substituted types.",
  ["programs"],
  "all type terms up to a depth over pointers, references, cv, containers, pairs and function types with 0 to several parameters, compared with an independent substitution",
  "recursive_variant_test uses vector, pair and a function pointer once each.",
  ["detail/substitute.hpp", "detail/enable_recursive.hpp", "recursive_variant.hpp"],
  [("substitute: structural recursion on types", I + "detail/substitute.hpp"), ("enable_recursive_impl / quoted_enable_recursive", I + "detail/enable_recursive.hpp")], [], ["nested types list", "construction from substituted types"]),
P("C17", "Any number of bounded types works, also from a type sequence",
  "Variants with any number of alternatives, given as template arguments or as a type sequence through make_variant_over (lists, vectors, joined or transformed views), behave alike: each alternative has the index of its position, and construction, copying, assignment, swap, comparison, hashing, get and visitation work for every alternative, first to last.",
  ["inputs", "programs", "configurations"],
  "every alternative and every pair of alternatives for type counts 1 to 45, around every internal unrolling boundary, for several unrolling limits and sequence kinds",
  "variant_over_joint_view_test has three types and other tests rarely use more than four; a wrong index near the end of a long list goes unseen.",
  ["variant.hpp", "detail/visitation_impl.hpp", "detail/over_sequence.hpp", "detail/make_variant_list.hpp", "variant_fwd.hpp"],
  [("visitation_impl unrolls BOOST_VARIANT_VISITATION_UNROLLING_LIMIT cases, then continues at next_step", I + "detail/visitation_impl.hpp"), ("make_variant_over / over_sequence", V)], [], ["which() and value of every alternative"]),
P("C18", "Content is stored in place, aligned, and without hidden allocation",
  "The content of a newly constructed or successfully re-typed variant lies inside the variant object, suitably aligned for its type, for every bounded type. Nothrow-copyable content always does, and if any bounded type is nothrow default-constructible then all content always does and no operation of the variant itself allocates memory.",
  ["histories", "fault_sequences", "programs"],
  "every reachable state of two variants under all faults, for type lists mixing sizes and alignments up to 64 bytes",
  "The tests check no addresses or alignment beyond sizeof checks in test1.",
  ["variant.hpp"],
  [("make_storage: size and alignment over all types", V), ("never_uses_backup_flag", V)], [("storage_", "aligned storage inside the variant", V)], ["address of content", "operator new ledger"]),
P("C19", "Variants have no hidden shared state between threads",
  "Operations on distinct variants in different threads, and concurrent reads (visitation, get, comparison, hashing, copying from) of one variant, give the results they would give alone, under every interleaving. In particular no data race exists in these uses.",
  ["schedules"],
  "all interleavings, up to a preemption bound, of two and three threads running short operation sequences on distinct variants and on one shared const variant",
  "The test suite is single-threaded.",
  ["variant.hpp", "detail/visitation_impl.hpp", "multivisitors.hpp", "get.hpp", "detail/hash_variant.hpp"],
  [("all visitors and temporaries are local objects; no static mutable state", V)], [], ["per-thread results against the sequential run", "ThreadSanitizer in every schedule"]),
P("C20", "Behaviour does not depend on build configuration",
  "With the same program, the observable outcomes are the same for every supported language level and compiler, with assertions on or off, with RTTI or exceptions disabled, with BOOST_VARIANT_MINIMIZE_SIZE, any visitation unrolling limit and relaxed get by default, apart from what those settings are documented to change.",
  ["configurations", "histories"],
  "the complete histories exploration and the visitation, conversion and get matrices repeated under each configuration, outcome sets compared",
  "The test suite is run in one configuration.",
  ["variant.hpp", "detail/config.hpp", "detail/visitation_impl.hpp", "variant_fwd.hpp"],
  [("conditional compilation of which_t, noexcept, rtti use, return types", V)], [], ["outcome digest per configuration"]),
P("C21", "Streaming a variant writes exactly its content",
  "Inserting a variant into an output stream writes exactly what inserting its content would write, honours the stream's state, flags and character type, works for every alternative and storage state, and returns the stream. A failing or throwing insertion behaves as for the content itself, and the variant is unchanged.",
  ["inputs", "histories"],
  "all alternatives, storage states, stream flag settings, narrow and wide streams, failing streams and throwing inserters",
  "Tests print one or two variants to std::cout in passing and do not compare text.",
  ["detail/variant_io.hpp"],
  [("printer visitor", I + "detail/variant_io.hpp")], [], ["characters and state of the stream"]),
P("C22", "Reference alternatives bind to the referred-to object",
  "A variant with reference alternatives refers to the very object it was constructed from: get and lvalue visitation reach that object, writes through them are seen by it, copies and moves of the variant refer to the same object, and the variant neither copies, moves from nor destroys it. Converting it to a variant of values copies the object.",
  ["histories", "programs"],
  "all constructions, copies, conversions and visits over lists with reference, const-reference and value alternatives",
  "variant_reference_test covers a few cases.",
  ["variant.hpp", "detail/initializer.hpp", "get.hpp"],
  [("reference_content stored in place, unwrapped on visitation", V)], [], ["address identity"]),
P("C23", "visitor_ptr and delayed visitation forward faithfully",
  "visitor_ptr applied to a variant calls the function once with the content exactly if the content is of the function's parameter type and otherwise throws bad_visit without calling it; the function's result or exception is passed on. A visitor bound first and applied to one or two variants later does exactly what applying it at once does, any number of times.",
  ["inputs", "programs"],
  "all alternatives x parameter forms (value, reference, const reference, base) x result types; all alternatives and operand categories of delayed application",
  "variant_visit_test has one visitor_ptr case and one delayed visitor.",
  ["visitor_ptr.hpp", "detail/apply_visitor_delayed.hpp", "bad_visit.hpp"],
  [("visitor_ptr_t::operator() overloads", I + "visitor_ptr.hpp"), ("apply_visitor_delayed_t", I + "detail/apply_visitor_delayed.hpp")], [], ["call log, results, exceptions"]),
P("C24", "Observing a variant never changes or copies it",
  "which, type, empty, get, visitation, multi-visitation, comparison, hashing and streaming leave the variant bit-for-bit as it was, copy and move no content and allocate nothing, in every reachable state.",
  ["histories", "inputs"],
  "every observer in every reachable state of every type list of the exploration",
  "Tests check results, not side effects, of observers.",
  ["variant.hpp", "get.hpp", "detail/visitation_impl.hpp", "detail/hash_variant.hpp", "multivisitors.hpp"],
  [("visitors take the content by reference", V)], [], ["bytes of the variant", "copy, move and allocation counters"]),
P("C25", "recursive_wrapper always owns exactly one value",
  "A recursive_wrapper always holds a live value of its own: construction, copy, move, assignment (copy, move and from a value) and swap give it the value of the right operand without sharing, a moved-from wrapper still holds a valid object, and its get functions name that one object. Any failure leaves both operands valid, changes no copied-from operand and leaks nothing.",
  ["histories", "fault_sequences"],
  "every history of operations on two wrappers with faults at every point",
  "recursive_wrapper_move_test counts a few moves.",
  ["recursive_wrapper.hpp"],
  [("owning pointer, never null", I + "recursive_wrapper.hpp")], [("p_", "owning pointer to the value", I + "recursive_wrapper.hpp")], ["get()", "registry"]),
P("C26", "Const-qualified bounded types keep their value and are given out only as const",
  "A variant with const-qualified bounded types can be constructed from values and from other variants, copied, moved, compared, hashed, streamed, visited and read with get like one without the const. Such content keeps its value for as long as the variant lives, also when the variant is moved from, and is only ever given out as const: visitors receive a const object, and get of the type without const finds nothing. The alternative selected, the order and the hash are those of the same list without const. A construction that fails passes the exception on, leaks nothing and leaves its source unchanged.",
  ["inputs", "fault_sequences"],
  "every alternative of each list, made in every way with a fault at every point, read in every way",
  "No test reads const-qualified content after a move or through get of the mutable type.",
  ["variant.hpp", "get.hpp", "detail/initializer.hpp", "detail/visitation_impl.hpp", "polymorphic_get.hpp"],
  [("const content is returned as const", I + "get.hpp"), ("initializers for const types", I + "detail/initializer.hpp")], [], ["constness and address of what visitors and get receive", "value of the source"]),
P("C27", "Misuse is rejected at compile time, and only misuse",
  "A program does not compile if it asks get, strict_get or polymorphic_get for a type that no alternative can be (the relaxed forms compile and find nothing), compares a variant with anything but a variant of the same type, applies a visitor that cannot be called for some alternative or combination of alternatives, or that would take const content as writable, an lvalue's content as rvalue or an rvalue's content by writable lvalue reference, writes to a const variant or its content, copies or assigns a variant whose contents cannot be, or makes or assigns a variant from a value or another variant for which there is no, or no best, alternative. Programs that differ from these only in not doing so compile.",
  ["programs"],
  "complete products of lists of bounded types, requested or argument types, visitor overload sets, value categories and forms of call, each a program given to the compiler",
  "A test that compiles says nothing about programs that must not; there are two compile-fail tests, for one program each.",
  ["get.hpp", "polymorphic_get.hpp", "variant.hpp", "detail/element_index.hpp", "detail/apply_visitor_unary.hpp", "detail/apply_visitor_binary.hpp", "detail/initializer.hpp"],
  [("static assertion of strict_get", I + "get.hpp"), ("which types a variant holds", I + "detail/element_index.hpp"), ("comparison with other types", I + "variant.hpp")], [], ["whether the compiler accepts the program"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props))
