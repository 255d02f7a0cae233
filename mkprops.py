#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Calls through bindings reach the right C++ with exact values",
 "Every free function, static method, const/non-const/virtual method made available by an allowlist can be called from Rust, and each call runs exactly that C++ entity, exactly once, on exactly the receiver given. Every argument arrives in C++, and every return value or write through a mutable reference or pointer arrives in Rust, with the identical value and in the declared position, whatever the parameter types, count, order, namespaces or typedefs involved. Nothing in the call is undefined behaviour for the sanitizers.",
 ["inputs","programs"], "all headers built from supported parameter/return types (integers of every width and C spelling, bool, char, floats, enums, pointers, references, PODs, opaque types, strings, smart pointers), all parameter lists and values",
 "The integration tests sample one signature per feature, usually one argument with a small value and with the caller's own assertion as oracle; swapped, truncated or sign-changed arguments in mixed signatures are not sampled.",
 ["engine/src/conversion/analysis/fun/mod.rs","engine/src/conversion/analysis/fun/function_wrapper.rs","engine/src/conversion/codegen_cpp/mod.rs","engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs","engine/src/conversion/codegen_rs/fun_codegen.rs","engine/src/conversion/codegen_rs/function_wrapper_rs.rs","engine/src/known_types.rs","engine/src/conversion/analysis/type_converter.rs"],
 [("TypeConversionPolicy per argument/return","engine/src/conversion/analysis/fun/function_wrapper.rs"),("C++ shim generation","engine/src/conversion/codegen_cpp/mod.rs generate_cpp_function_inner"),("Rust shim generation","engine/src/conversion/codegen_rs/fun_codegen.rs")],
 ["event log written by the C++ callee and by the Rust caller of each generated program"])
prop("C02", "Overloads, namespaces and nested names map predictably and to their own target",
 "A C++ namespace a::b becomes Rust module a::b, a nested type Outer::Inner becomes Outer_Inner in its namespace, a name that is a Rust keyword gets a trailing underscore, and overloads take the base name then name1, name2, ... in declaration order (constructors: new, new1, ...). Each such Rust name calls exactly its own C++ overload, and equal names in different types or namespaces never interfere with each other's names or targets.",
 ["programs"], "all sets of same-named functions, methods, constructors, static methods and types spread over namespaces and nested classes",
 "Tests sample a few two-element overload sets and one conflict at a time; combinations (same class name in two namespaces with same overloaded methods, names that look like numbered overloads of others in another scope, keywords plus overloads) are not reached.",
 ["engine/src/conversion/analysis/fun/overload_tracker.rs","engine/src/conversion/analysis/fun/bridge_name_tracker.rs","engine/src/conversion/codegen_rs/namespace_organizer.rs","engine/src/conversion/codegen_rs/mod.rs","engine/src/conversion/analysis/fun/mod.rs"],
 [("per-type and per-namespace overload counters","overload_tracker.rs"),("unique cxx bridge names","bridge_name_tracker.rs"),("namespace tree output","namespace_organizer.rs")],
 ["event log of generated programs: id of overload run"])
prop("C03", "By-value and rvalue parameters: documented copy/move, exactly-once destruction",
 "When Rust passes a C++ object to a by-value or rvalue-reference parameter, the callee gets an object with the caller's value; a reference argument (or as_copy) leaves the caller's object alive and unchanged, while UniquePtr, Box, as_mov and as_new arguments are consumed, and a NULL UniquePtr panics instead of reaching C++. Over the whole run every C++ object that is constructed is destroyed exactly once and never used outside its lifetime, including when the call sits among other by-value arguments, in a method or constructor, or is unwound by a panic.",
 ["inputs","programs","histories"], "all sequences of by-value/rvalue calls over all argument forms, numbers of such parameters and class shapes (copyable, move-only, trivially or non-trivially destructible, over-aligned)",
 "Tests call one by-value function once or twice and do not observe construction/destruction histories or panics during argument population.",
 ["src/value_param.rs","src/rvalue_param.rs","engine/src/conversion/codegen_rs/function_wrapper_rs.rs","engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs","src/lib.rs"],
 [("ValueParamHandler populate/drop","src/value_param.rs"),("RValueParamHandler","src/rvalue_param.rs"),("std::move/dereference in C++ shim","function_wrapper_cpp.rs")],
 ["C++ object registry (ctor/copy/move/dtor/use events)","AddressSanitizer/LeakSanitizer reports"])
prop("C04", "Constructing, storing and dropping C++ objects from Rust is exactly-once",
 "Every constructor and every by-value return can be emplaced in a UniquePtr, a Box, a CppPin-style holder or the stack, runs exactly once per emplacement with the given arguments, and the object then stays at one address until its destructor runs exactly once when the Rust owner is dropped, released or moved away. Heap storage comes from and returns to the type's own operator new/delete when it has them, of the right size and alignment. An emplacement that is never used constructs nothing.",
 ["programs","histories"], "all interleavings of create/copy/move/take-pointer/drop over all storages and class shapes (implicit and explicit special members, bases, fields, custom allocation, over-alignment)",
 "Tests construct one object per storage and rely on it not crashing; they do not check the event history or the storage's allocator pairing under sanitizers for other shapes.",
 ["engine/src/conversion/analysis/fun/implicit_constructors.rs","engine/src/conversion/analysis/allocators.rs","engine/src/conversion/codegen_cpp/new_and_delete_prelude.rs","engine/src/conversion/codegen_rs/fun_codegen.rs","src/reference_wrapper.rs","src/lib.rs"],
 [("placement-new shims","codegen_cpp/mod.rs"),("MakeCppStorage impls","allocators.rs"),("Drop impl calling the C++ destructor","fun_codegen.rs")],
 ["C++ object registry and operator new/delete log","AddressSanitizer"])
prop("C05", "Sizes, alignments, POD fields, enums and constants agree with C++",
 "For every generated type (POD or opaque) Rust's size and alignment equal C++'s; every field of a generate_pod! struct read or written in Rust is the same field, with the same value, that C++ sees, at the same offset, including nested PODs, arrays, enums, pointers, bools and padding. Enum variants, constexpr/const integers and #define numbers have in Rust exactly the C++ value.",
 ["inputs","programs"], "all struct shapes within the POD rules and all field/enum/constant values",
 "Tests use one- or two-field structs and one value each; offsets, padding, negative or large enum values and bases are barely sampled.",
 ["engine/src/conversion/analysis/pod/mod.rs","engine/src/conversion/codegen_rs/mod.rs","engine/src/conversion/codegen_rs/non_pod_struct.rs","engine/src/conversion/parse/parse_bindgen.rs"],
 [("pass-through of bindgen layout for PODs","codegen_rs/mod.rs"),("opaque struct with size/align","non_pod_struct.rs")],
 ["sizeof/alignof/offset/value probes logged by both languages in the same process"])
prop("C06", "Only types safe to move by memcpy can be requested as POD",
 "A generate_pod! (or pod!) request is granted only if Rust may hold and bitwise-move the type: a type that, directly or through any field, base, array or typedef, has a non-trivial move constructor or destructor, virtual functions, or otherwise cannot be trivially relocated is rejected with an error naming it (or its C++ fails to build), never silently accepted. Requests for types that qualify are granted, with their fields accessible.",
 ["programs"], "all nestings of fields, bases, arrays, typedefs and declaration orders",
 "Tests have a handful of direct negative cases; indirect ones through bases, arrays, typedefs, namespaces and several levels are not enumerated.",
 ["engine/src/conversion/analysis/pod/byvalue_checker.rs","engine/src/conversion/analysis/pod/mod.rs","engine/src/conversion/codegen_cpp/mod.rs","engine/src/known_types.rs"],
 [("ByValueChecker","pod/byvalue_checker.rs"),("static_assert IsRelocatable","codegen_cpp/mod.rs generate_pod_assertion")],
 ["accept/reject verdict of the real generator + C++ compiler against std::is_trivially_* traits evaluated by clang"])
prop("C07", "Exposed constructors and methods match what C++ lets callers do; output builds",
 "For any header the generator accepts, the generated Rust and C++ compile and link. A constructor, copy or move operation, or method is available in Rust if C++ callers could use it (public, not deleted, class not abstract) under the documented rules, and is never available when C++ forbids it: deleted, private or protected members, copy/move of types with uncopyable/immovable fields or bases, construction of abstract classes.",
 ["programs"], "all combinations of special-member declarations (absent, defaulted, deleted; public, protected, private), virtual/pure/overridden methods, fields and bases",
 "One test enumerates a fixed list of classes; the product space of special-member rules over fields and bases with access specifiers is far larger.",
 ["engine/src/conversion/analysis/fun/implicit_constructors.rs","engine/src/conversion/analysis/abstract_types.rs","engine/src/conversion/analysis/fun/mod.rs","engine/src/conversion/analysis/constructor_deps.rs"],
 [("find_constructors_present","implicit_constructors.rs"),("mark_types_abstract","abstract_types.rs"),("ignore_reason for protected/private/deleted","fun/mod.rs")],
 ["static trait probes executed by the generated program compared with std::is_*_constructible evaluated by clang"])
prop("C08", "Unsafety, mutability and lifetimes of the exposed signatures",
 "Without a safety directive every binding is an unsafe fn; with safety!(unsafe_ffi) or safety!(unsafe) all are safe except those taking raw pointers. A const method or const reference is callable with a shared reference and yields only shared references, anything mutable requires Pin<&mut>, a returned reference cannot outlive the argument it borrows from, and a function whose returned reference cannot be tied to a single argument is not exposed as a reference-returning function.",
 ["programs","configurations"], "all signatures over pointer/reference/constness/receiver combinations under every safety directive",
 "Tests check a few compile-fail cases; the grid of signature x policy x use is not covered.",
 ["engine/src/conversion/analysis/fun/mod.rs","engine/src/conversion/codegen_rs/lifetime.rs","engine/src/conversion/codegen_rs/fun_codegen.rs","parser/src/config.rs","parser/src/lib.rs"],
 [("should_be_unsafe","fun/mod.rs"),("add_explicit_lifetime_if_necessary","lifetime.rs"),("UnsafePolicy parsing","parser/src/config.rs")],
 ["rustc verdict (accept / specific error code) on probe programs that use each generated function"])
prop("C09", "The API surface is exactly what directives ask for",
 "Items named by generate!, generate_pod!, generate_ns! or generate_all! (and types they need) are exposed with their methods; nothing else from the headers becomes callable, and types named in block! never appear as bindings, nor does anything that needs them; block_constructors! removes a type's implicit constructors, exclude_impls! the smart-pointer and constructor implementations and exclude_utilities! the string utilities. A directive naming something that does not exist makes generation fail with an error naming it rather than silently omit it.",
 ["configurations","programs"], "all combinations of allow/block directives over namespaces, prefixes of names, nested types and dependent APIs",
 "Tests use one directive on one item; interactions (prefix-like names, namespaces that are prefixes of others, blocked types used deep in signatures) are not sampled.",
 ["parser/src/config.rs","parser/src/directives.rs","engine/src/conversion/analysis/gc.rs","engine/src/conversion/mod.rs","engine/src/conversion/analysis/remove_ignored.rs"],
 [("Allowlist/blocklist matching","parser/src/config.rs"),("filter_apis_by_following_edges_from_allowlist","gc.rs"),("check for missing allowlist items","engine/src/conversion/mod.rs")],
 ["parsed public API of the generated Rust + rustc use probes + generator exit status"])
prop("C10", "Unsupported C++ degrades per item, never breaking neighbours or crashing",
 "When a header contains constructs that cannot be bound, only the affected functions, methods or types are left out, replaced by a documented placeholder that says why, and every other requested item is still bound, builds and works. The generator never panics, hangs or writes output that does not build for input headers that are valid C++ (outside the listed known findings) and compiler flags clang accepts; malformed directives, Rust or C++ yield an error exit with a diagnostic.",
 ["inputs","programs","fault_sequences"], "all mixes of supported items with unsupported constructs (arrays, variadics, function pointers, unions, templates, anonymous namespaces, rvalue oddities, double underscores, forward declarations, bitfields, operators), in any order",
 "Tests isolate one unsupported construct per header; mixtures and interactions with naming/overloads/gc are not covered.",
 ["engine/src/conversion/error_reporter.rs","engine/src/conversion/convert_error.rs","engine/src/conversion/analysis/remove_ignored.rs","engine/src/conversion/analysis/name_check.rs","engine/src/conversion/analysis/replace_hopeless_typedef_targets.rs"],
 [("convert_apis/report_any_error turning failures into IgnoredItem","error_reporter.rs"),("filter_apis_by_ignored_dependents","remove_ignored.rs")],
 ["generator exit status/stderr, clang/rustc verdict, runtime trace of neighbours, doc placeholders in output"])
prop("C11", "Same inputs give byte-identical outputs",
 "Running the generator on the same sources with the same options produces byte-identical Rust, C++ and archive files in every process, output directory, environment (apart from logging settings), thread and on every repetition, and the API does not depend on hash order or on other modules processed in the same run.",
 ["histories","schedules","configurations"], "repeated, concurrent and differently-located runs over all headers",
 "Tests never compare two runs.",
 ["engine/src/conversion","gen/cmd/src/main.rs","engine/src/output_generators.rs","engine/src/known_types.rs"],
 [("IndexMap/IndexSet everywhere","engine/src"),("no absolute paths or counters shared between runs","engine/src/lib.rs")],
 ["hashes of all output files over repeated runs in separate processes/dirs/threads"])
prop("C12", "Command-line outputs: converge, keep timestamps, exact counts, full depfile",
 "After any history of edits, interrupted or corrupted earlier runs, the generator's output directory holds every file a clean run would write with exactly the clean run's content (files of other names are left alone); unchanged files keep their timestamps; two outputs that would land on one name with different contents are an error; --generate-exact N yields exactly N files of each kind or an error. The depfile names every output and every header that was read.",
 ["histories","crash_points","configurations","fault_sequences"], "all edit histories, truncation points of previous outputs, option sets and include graphs",
 "Tests run the tool once in an empty directory (plus one rerun).",
 ["gen/cmd/src/main.rs","gen/cmd/src/depfile.rs","engine/src/builder.rs"],
 [("FileWriter::write_to_file","gen/cmd/src/main.rs"),("write_placeholders","gen/cmd/src/main.rs"),("Depfile","gen/cmd/src/depfile.rs")],
 ["file contents, mtimes and exit status after each step of a history","opens recorded by strace-like include probe"])
prop("C13", "Each include_cpp! module gets exactly its own bindings",
 "With several include_cpp! blocks (named modules, nested Rust modules, several source files), each block is expanded with exactly the bindings generated for it, whether found via directory lookup (by module name), archive lookup (by the block as written) or a single file, with the precedence of the lookup variables as documented; Rust items discovered in a file belong to that file's block; and the modules' bindings work side by side without clashing. A block whose bindings are missing (no file of its module's name; no archive entry for its contents) is a compile-time error, never someone else's bindings.",
 ["configurations","programs"], "all numbers, names and contents of blocks and all three lookup modes",
 "Tests have two-module cases with one lookup mode at a time.",
 ["parser/src/multi_bindings.rs","parser/src/file_locations.rs","parser/src/config.rs","engine/src/output_generators.rs","macro/src/lib.rs","src/lib.rs"],
 [("config hash keyed archive","parser/src/multi_bindings.rs"),("FileLocationStrategy","parser/src/file_locations.rs"),("uniquify_name_per_mod","parser/src/config.rs")],
 ["runtime trace of programs built from the archive/dir/file","rustc verdict on mismatching archives"])
prop("C14", "C++ virtual calls reach the Rust subclass and super calls reach C++",
 "When a Rust type subclasses a C++ class, every virtual or pure virtual call made from C++ on that object runs the Rust override of that very method with exact arguments and return value; methods not overridden run the C++ base version, super calls from Rust run the base implementation, and casting to the superclass yields the same object.",
 ["programs","inputs"], "all superclass shapes: const/non-const, overloaded, defaulted and pure methods, argument and return types, namespaces, several subclasses",
 "Tests check one or two methods per superclass with fixed values.",
 ["engine/src/conversion/analysis/fun/subclass.rs","engine/src/conversion/codegen_cpp/mod.rs","engine/src/conversion/codegen_rs/mod.rs","macro/src/lib.rs"],
 [("generate_subclass","codegen_cpp/mod.rs"),("SubclassTraitItem/RustSubclassFn","codegen_rs/mod.rs")],
 ["event log of both languages"])
prop("C15", "Subclass objects: one life, no dangling peer, no aliased mutation",
 "Under each ownership model (Rust-owned, C++-owned, self-owned) a subclass object's Rust part and C++ part are each destroyed exactly once, at the documented moment, never used afterwards, for every order of creating, sharing, upcasting, calling, relinquishing and dropping; delete_self destroys both. Re-entrant calls that would alias a mutable borrow panic instead of proceeding.",
 ["histories"], "all sequences of ownership operations and re-entrant callbacks",
 "Tests check two allocation scenarios by counters, not arbitrary histories under sanitizers.",
 ["src/subclass.rs","engine/src/conversion/codegen_rs/mod.rs","engine/src/conversion/codegen_cpp/mod.rs"],
 [("CppSubclassRustPeerHolder / CppPeerHolder","src/subclass.rs"),("remove_ownership","codegen_cpp/mod.rs generate_subclass")],
 ["C++/Rust lifetime registry, AddressSanitizer, Miri on the runtime crate"])
prop("C16", "Rust functions and types exported to C++ are called exactly as declared",
 "Functions and inherent methods marked extern_rust_function (parameters and results that cxx can express: integers, bool, floats, &str, String, Vec, Box and references of extern Rust types, references to C++ types) and types marked extern_rust_type can be called and held from C++, whatever other items share their names; each call runs exactly that Rust function with exact arguments and result, references identify the same Rust object, and boxed Rust values crossing to C++ are dropped exactly once.",
 ["programs","inputs"], "all exported signatures, modules and values",
 "Tests export one function with one argument.",
 ["engine/src/ast_discoverer.rs","engine/src/parse_file.rs","engine/src/conversion/codegen_rs/mod.rs","macro/src/lib.rs","parser/src/config.rs"],
 [("Discoveries::search_item","ast_discoverer.rs"),("RustFn/RustType codegen","codegen_rs/mod.rs")],
 ["event log of both languages, drop registry, AddressSanitizer"])
prop("C17", "Strings, smart pointers and vectors cross the boundary intact",
 "std::string content (any bytes, embedded NUL, any length) created from Rust text or read back in Rust is byte-identical; unique_ptr, shared_ptr, weak_ptr and vector values passed or returned keep identity, contents, order, null-ness and reference counts; and ownership is conserved (no leak, no double free).",
 ["inputs","histories"], "all strings, container contents and passing histories",
 "Tests pass \"hello\" and short fixed vectors.",
 ["src/lib.rs","engine/src/conversion/codegen_cpp/mod.rs","engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs","engine/src/known_types.rs","engine/src/conversion/codegen_rs/mod.rs"],
 [("ToCppString/make_string","codegen_rs/mod.rs, codegen_cpp/mod.rs"),("known_types container behaviours","known_types.rs")],
 ["byte digests logged by both sides, use_count and address events, AddressSanitizer"])
prop("C18", "Runtime helper types are free of undefined behaviour",
 "The autocxx runtime crate's own types (pinned C++ object holders, C++ reference wrappers, value and rvalue parameter handlers, subclass holders, C integer wrappers) never cause undefined behaviour through their safe API: addresses stay stable, references point to the same object, conversions preserve values, and every held object is dropped exactly once, including on panic.",
 ["histories","inputs"], "all sequences of operations on the runtime types",
 "No existing test runs the runtime crate under an undefined-behaviour interpreter; doc tests only compile.",
 ["src/reference_wrapper.rs","src/value_param.rs","src/rvalue_param.rs","src/subclass.rs","src/lib.rs"],
 [("CppPin/CppRef/CppMutRef/CppUniquePtrPin","src/reference_wrapper.rs"),("ValueParamHandler/RValueParamHandler","src/value_param.rs, src/rvalue_param.rs"),("subclass holders","src/subclass.rs")],
 ["Miri (Tree and Stacked Borrows) over random operation histories with a drop-counting model"])
prop("C19", "Directives are parsed faithfully and survive re-serialisation",
 "Every valid include_cpp! block is read as exactly the set of directives written, in any order and repetition (of single-valued directives the last counts), independent of formatting; contradictory, unknown or malformed directives are rejected with an error; and the configuration re-emitted in a reproduction case parses back to one that has the same effect.",
 ["inputs","configurations"], "all directive sequences and token-level mutations",
 "Parser tests parse a few hand-written blocks.",
 ["parser/src/config.rs","parser/src/directives.rs","parser/src/path.rs","parser/src/subclass_attrs.rs","parser/src/lib.rs"],
 [("IncludeCppConfig::parse","parser/src/config.rs"),("Directive::output","parser/src/directives.rs")],
 ["parsed configuration accessors vs the generator's model; parse(print(parse(x))) comparison"])
prop("C20", "Upcasts and inherited calls act on the right subobject",
 "Converting a reference to a derived class into a reference to any of its public, non-virtual, non-empty allowlisted bases (direct ones; indirect ones by chaining; single or multiple inheritance) yields the address of that base subobject of the same object, so calls through it run the most-derived override and see the same state; conversions to non-bases or inaccessible bases are not offered.",
 ["programs"], "all public inheritance graphs including multiple inheritance with non-zero offsets",
 "Tests use single inheritance at offset zero.",
 ["engine/src/conversion/analysis/casts.rs","engine/src/conversion/analysis/pod/mod.rs","engine/src/conversion/codegen_rs/fun_codegen.rs","engine/src/conversion/codegen_cpp/mod.rs"],
 [("create_casts","casts.rs"),("castable_bases","pod/mod.rs")],
 ["addresses and ids logged by C++ and by the callee"])
prop("C21", "Auto-allowlisting finds every C++ API the Rust code uses",
 "With automatic allowlisting, every C++ function or type the Rust file reaches by an ffi:: path in expressions, statements, let patterns and annotations, free-function signatures and generic arguments, at any depth of blocks, closures, nested functions, modules, impl and trait method bodies, and every superclass named by #[subclass(superclass(..))], is generated, so the file builds and runs exactly as if it had been listed by hand; nothing unmentioned is exposed. Documented exclusions: uses inside macro calls, static calls on types (ffi::T::new), renamed bindings modules and use-renames.",
 ["programs"], "all syntactic positions and path forms in which a bound name may occur",
 "Discovery tests cover one position per test at the AST level without building.",
 ["engine/src/ast_discoverer.rs","engine/src/parse_file.rs"],
 [("PerModDiscoveries deep search","ast_discoverer.rs")],
 ["discovered allowlist vs the model; build and run of the program"])
prop("C22", "A C++ type shared by several include_cpp! modules is one Rust type",
 "When one include_cpp! module declares a C++ class, POD struct or enum of another module (or of a cxx bridge) external with extern_cpp_type! (plus pod! for PODs and enums) or extern_cpp_opaque_type!, both names are the same Rust type, nested namespaces included, directly or through a third module. Functions and methods of every module accept and return it by value, reference, pointer, UniquePtr and SharedPtr (opaque types: by reference, pointer and UniquePtr, values returned arrive in a UniquePtr) with exact values, the same addresses and exactly-once lifetimes whichever module made the object; the generated C++ headers of all modules can be included together in one C++ file. Not claimed: names declared external that nothing uses, and fields of external POD types in POD structs (a known finding).",
 ["programs","histories"], "all sets of shared types, ways of declaring them, forms of use and histories of passing objects between modules",
 "Tests share one or two types through single calls; a wrong by-value/POD/opaque classification of an external type shows only for particular kinds and forms of use.",
 ["engine/src/conversion/parse/parse_bindgen.rs","engine/src/conversion/analysis/fun/mod.rs","engine/src/conversion/codegen_rs/mod.rs","engine/src/conversion/codegen_cpp/mod.rs","parser/src/config.rs"],
 [("external types taken from other bindings","parse_bindgen.rs"),("generation of external type aliases and their C++ header","codegen_rs/mod.rs, codegen_cpp/mod.rs")],
 ["lifetime and value event log, type-identity probes, including all generated headers in one file"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
