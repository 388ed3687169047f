#!/usr/bin/env python3
"""Writes properties.jsonl (the property list is maintained here, in a readable form)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Both backends, with and without optimization, agree on every program",
  "For every accepted program, the tree interpreter, the unoptimized intermediate-code interpreter and the optimized one produce the same value, or fail with the same kind of failure. Turning optimization on never makes compilation crash, never makes a program fail that did not, never makes a failing or non-terminating program succeed, and never changes a result.",
  ["programs", "inputs"], "every program the compiler accepts and every argument of its entry points",
  "The suite runs a few thousand hand-written snippets in the three modes; an optimizer rewrite is wrong only for particular combinations of control flow, aliasing, ownership and failure that the snippets do not contain.",
  ["src/eval.rs", "src/emit_mir.rs", "src/mir/interpreter.rs", "src/mir/pass/"],
  [("optimization pipeline", "src/mir/pass/mod.rs"), ("lowering", "src/emit_mir.rs"), ("tree interpreter", "src/eval.rs"), ("IR interpreter", "src/mir/interpreter.rs"), ("compile-time evaluation", "src/mir/const_eval.rs")],
  observe=["CompilerSession::run_entry_with_limits"])

p("C02", "Programs compute what the language semantics define",
  "An accepted program evaluates to the value, or stops with the failure, that the documented semantics give it: operands and arguments left to right, lexical scoping and shadowing, short-circuit logic, expression-valued blocks, conditionals, matches and loops, labelled break/continue, early return, recursion, pipelines, and closures that capture by value. Operator precedence and associativity follow the documented grammar.",
  ["programs"], "every well-typed program over integers, floats, booleans, strings, tuples, records, variants, arrays, functions and closures",
  "Tests check chosen snippets against hand-computed values; combinations of scoping, control flow and nested constructs are unbounded.",
  ["src/parser/parser.lalrpop", "src/desugar/", "src/hir/", "src/eval.rs", "src/types/type_inference/expr.rs"],
  [("grammar and precedence", "src/parser/parser.lalrpop"), ("desugaring of sugar forms", "src/desugar/expr.rs"), ("evaluation", "src/eval.rs"), ("closure capture", "src/types/type_inference/expr.rs")])

p("C03", "Values are independent: mutation never shows through another binding",
  "Binding, copying, storing, returning, capturing or passing a value by value gives an independent value: mutating one (at any depth, also through its array elements, fields and variant payloads) never changes the other. A mutation made through a mutable argument changes exactly the caller's place that was passed, and nothing else; programs that mutate an immutable binding, or pass overlapping mutable places in one call, are rejected at compile time.",
  ["programs", "histories"], "every program of bindings, copies, captures, calls and in-place updates over nested values",
  "Aliasing bugs need a specific combination of copy, nesting and later mutation (often only after an ownership optimization); tests sample a handful of combinations.",
  ["src/hir/borrow_checker.rs", "src/types/mutability.rs", "src/eval.rs", "src/mir/pass/copy_forward.rs", "src/mir/pass/owned_arguments.rs", "src/std/value.rs"],
  [("overlap checking", "src/hir/borrow_checker.rs"), ("clone of composite values", "src/std/value.rs"), ("copy elimination", "src/mir/pass/copy_forward.rs"), ("in-place accumulation", "src/mir/pass/string_accumulate.rs")])

p("C04", "Every owned value is released exactly once on every path",
  "Every value a program creates, copies or moves is released exactly once: on normal completion, early return, break or continue out of a loop, overwriting assignment, partial construction, failure in the middle of any expression, and in every backend and optimization mode. After the host discards the result, a run leaves no live storage behind, and user-defined drop hooks run once per value.",
  ["programs", "fault_sequences"], "every program and every point at which it may fail or leave a scope early",
  "Leak and double-release bugs sit on cleanup paths of specific control flow; only a few snippets are measured, and only without failures.",
  ["src/hir/elaboration.rs", "src/emit_mir.rs", "src/mir/pass/dead_store.rs", "src/mir/pass/owned_arguments.rs", "src/mir/interpreter.rs", "src/eval.rs", "src/std/buffer.rs"],
  [("drop elaboration", "src/hir/elaboration.rs"), ("cleanup edges", "src/emit_mir.rs"), ("failure unwinding", "src/eval.rs"), ("buffer storage", "src/std/buffer.rs")],
  observe=["CompilerSession::run_entry_with_limits", "Value::discard_storage"])

p("C05", "Any source text is either compiled or rejected with sound diagnostics",
  "For every text given as source, of bounded nesting depth, the compiler and the editor services terminate without crashing and either succeed or report at least one diagnostic. Every position reported in a diagnostic or annotation lies inside the text on a character boundary, in whichever position encoding the host selected, and rejected text leaves the session usable.",
  ["inputs"], "every byte-valid text: arbitrary characters, token soup, and damaged or spliced programs",
  "The error paths of parsing, desugaring, inference and diagnostics form a huge space of malformed inputs; tests have a few hundred expected errors.",
  ["src/parser/", "src/desugar/", "src/types/", "src/compiler/error/compilation.rs", "src/ide/"],
  [("parsing and recovery", "src/parser/parser.lalrpop"), ("diagnostics", "src/ide/diagnostics.rs"), ("annotations", "src/ide/annotations.rs"), ("error resolution", "src/compiler/error/compilation.rs")],
  observe=["ferlium::Compiler::compile_report", "ferlium::Compiler::get_annotations"])

p("C06", "Well-typed programs do not go wrong and ill-typed ones are rejected",
  "Running an accepted program ends in a value of its inferred type, a declared failure, or a resource-limit stop, never in an internal error. A program in which an expression is used at a type it cannot have is rejected at compile time, wherever the misuse is placed, and well-typed programs are accepted.",
  ["programs"], "every well-typed program and every single type-breaking edit of it",
  "Type errors can be placed in any construct; tests place them in a few.",
  ["src/types/type_inference/", "src/types/trait_solver.rs", "src/hir/", "src/eval.rs"],
  [("inference", "src/types/type_inference/expr.rs"), ("unification", "src/types/type_inference/unify.rs"), ("defaulting", "src/types/type_inference/defaulting.rs"), ("elaboration", "src/hir/elaboration.rs")])

p("C07", "Meaning does not depend on how a program is presented",
  "Reordering top-level definitions, renaming variables and functions consistently, changing layout and comments, adding redundant parentheses or blocks, writing out inferred types, replacing sugar (pipeline calls, mutable parameters, compound assignment, formatted strings) by its documented expansion, wrapping an expression in a function or an identity call, or forbidding inlining never changes whether a program is accepted, its result, or its inferred signatures.",
  ["programs"], "every accepted program and every such meaning-preserving rewrite",
  "Order or name dependence in whole-module inference appears only for particular dependency graphs; tests fix one order and one naming.",
  ["src/desugar/module.rs", "src/graph.rs", "src/types/type_inference/", "src/hir/emit_functions.rs"],
  [("dependency ordering", "src/graph.rs"), ("module desugaring", "src/desugar/module.rs"), ("generalization", "src/hir/emit_functions.rs"), ("sugar", "src/desugar/expr.rs")],
  observe=["ferlium::Compiler::fn_signature"])

p("C08", "Inferred effects cover everything a function does",
  "A function whose inferred effects do not include failing never fails, and one whose inferred effects do not include reading (writing) never reaches a host function that reads (writes), however the effect arrives: direct or recursive calls, higher-order arguments, stored or returned closures, generic and trait-dispatched calls. A declared effect bound that the body exceeds is rejected.",
  ["programs"], "every accepted program over host functions with known effects",
  "Effects flow through inference variables, closures and traits; tests check chosen functions' effect sets.",
  ["src/types/effects.rs", "src/types/type_inference/effect_solver.rs", "src/types/type_inference/expr.rs"],
  [("effect constraint solving", "src/types/type_inference/effect_solver.rs"), ("effect rows", "src/types/effects.rs")])

p("C09", "Host calls happen exactly as the source orders them",
  "Calls to host functions that read or write are performed at run time only, exactly as often, in exactly the order and with exactly the arguments that the source program prescribes, in every backend and optimization mode, also when the program fails later; host properties are read and written in the same manner. Reads observe the host state at that moment and are never reused across a write.",
  ["programs", "histories"], "every program over host functions and properties with declared effects",
  "An optimizer that duplicates, drops, hoists or folds an effectful call is only caught by comparing traces; most tests compare results.",
  ["src/mir/pass/licm.rs", "src/mir/pass/cse.rs", "src/mir/pass/dce.rs", "src/mir/pass/fold.rs", "src/mir/const_eval.rs", "src/hir/emit_hir.rs"],
  [("effect gates of passes", "src/mir/pass/"), ("compile-time execution of natives", "src/mir/const_eval.rs"), ("property access", "src/desugar/expr.rs")])

p("C10", "Resource limits bound every execution and do no other harm",
  "Every run under a fuel, call-depth and environment limit ends; exceeding a limit is reported as that limit's violation, naming it, and never as a source failure, a wrong value or a crash. A run that stays within its limits gives exactly the unlimited result, raising a limit never turns a completed run into a different outcome, and after a violation the session still compiles and runs programs correctly.",
  ["programs", "configurations"], "every program, terminating or not, under every combination of limits",
  "Limits interact with every loop shape, recursion form, native callback and optimization; tests check a few loops at a few limits.",
  ["src/execution.rs", "src/eval.rs", "src/mir/interpreter.rs", "src/mir/verify.rs", "src/emit_mir.rs"],
  [("fuel accounting", "src/eval.rs"), ("fuel checks on cycles", "src/emit_mir.rs"), ("limit enforcement", "src/mir/interpreter.rs")])

p("C11", "Arrays, ranges and sequence functions behave as sequences",
  "Every history of array operations (append, prepend, pop at either end, indexing with positive or negative indices, slicing, concatenation, reversal, sorting, splitting, joining) and every pipeline of ranges, iterators and sequence functions gives what the same operations on a mathematical sequence give; out-of-range access is a failure. Sorting returns an ordered stable permutation for any consistent ordering, and splitting then joining restores the original.",
  ["histories", "inputs"], "every operation history and pipeline over arrays and ranges of any element type",
  "The array is a growing ring buffer whose bugs depend on the history (wrap-around, growth while wrapped); iterator adaptors compose without bound.",
  ["src/std/prelude/array.fer", "src/std/prelude/array_type.fer", "src/std/prelude/core_impls.fer", "src/std/prelude/core_impls_dependent.fer", "src/std/buffer.rs", "src/std/array_type.rs"],
  [("ring buffer array", "src/std/prelude/array_type.fer"), ("array algorithms", "src/std/prelude/array.fer"), ("iterators and adaptors", "src/std/prelude/core_impls.fer")],
  state=[("ring buffer", "storage, start index and length of an array", "src/std/prelude/array_type.fer")])

p("C12", "String operations behave as operations on Unicode text",
  "String literals with escapes, formatted strings, concatenation, in-place pushing, slicing, searching, replacing, splitting, joining, trimming, case mapping, length and iteration give the same result as the same operation on the mathematical text, for every valid Unicode content, and never produce invalid text or crash. Converting values to text and printing them for inspection quotes and escapes so that reading the text back as source gives an equal value.",
  ["inputs", "histories"], "every Unicode text (multi-byte, combining, empty) and every argument position",
  "Boundary cases are Unicode- and index-dependent; tests use a few ASCII and a few accented samples.",
  ["src/std/string.rs", "src/parser/escapes.rs", "src/desugar/format_string.rs", "src/mir/pass/string_accumulate.rs"],
  [("string natives", "src/std/string.rs"), ("literal escapes", "src/parser/escapes.rs"), ("formatted strings", "src/desugar/format_string.rs")])

p("C13", "Sets and maps behave as mathematical sets and maps",
  "After every history of insertions, lookups, replacements, removals of duplicates, literals, copies and collection from sequences, a set holds exactly the distinct inserted values and a map associates each key with the last value given for it; lookups, length, equality and iteration agree with that, for every key type with any hash distribution. Equality of sets and maps does not depend on insertion history.",
  ["histories", "inputs"], "every operation history over keys of any hashable type, including colliding and growing tables",
  "Hash table bugs depend on collisions, growth and history; tests insert a handful of keys.",
  ["src/std/prelude/hash_collections.fer", "src/std/hash.rs"],
  [("hash table", "src/std/prelude/hash_collections.fer"), ("hashing", "src/std/hash.rs")],
  state=[("table", "buckets and length", "src/std/prelude/hash_collections.fer")])

p("C14", "Numbers: wrapping integers, finite floats, exact bit operations and casts",
  "Integer arithmetic wraps at the machine width, the integer division functions follow truncating and Euclidean rules, bit, shift and rotation functions act on the two's-complement representation, and conversions truncate and saturate, for every operand including the extremes. A float result is never NaN or infinite: an operation that has no finite result fails or saturates as documented; numeric literals in every base denote exactly their value or are rejected.",
  ["inputs"], "every operand pair, shift amount and literal, including extreme values",
  "Edge operands (minimum integer, shift beyond width, overflow to infinity) multiply over operations and folding; tests sample a few.",
  ["src/std/math.rs", "src/std/cast.rs", "src/parser/helpers.rs", "src/mir/pass/fold.rs", "src/mir/pass/peephole.rs", "src/mir/pass/negation.rs"],
  [("numeric natives", "src/std/math.rs"), ("casts", "src/std/cast.rs"), ("constant folding", "src/mir/pass/fold.rs"), ("literal parsing", "src/parser/helpers.rs")])

p("C15", "Equality, ordering, hashing and copying of values are lawful",
  "For every type that supports it, derived or built in, equality is structural and an equivalence, equal values hash equally, a copy equals its original, ordering is a total order consistent with equality, and comparison operators, minimum, maximum and clamp agree with it. Values that differ in any component, variant or length are unequal.",
  ["inputs"], "every pair and triple of values of every (nested, user-defined, recursive, generic) type",
  "Derived implementations are generated per type shape; the shapes are unbounded and tests cover a few.",
  ["src/std/value.rs", "src/std/product_value_deriver.rs", "src/std/ordering.rs", "src/std/prelude/comparison.fer", "src/std/hash.rs", "src/hir/emit_value_impl.rs"],
  [("value derivation", "src/std/value.rs"), ("ordering", "src/std/prelude/core_impls.fer"), ("hashing", "src/std/hash.rs")])

p("C16", "Serialized data reads back equal and malformed data is refused",
  "Any serializable value encoded to JSON, to data text, or to the generic data value and decoded at its own type gives an equal value; text produced for JSON is valid JSON with the same content as an independent parser sees, and valid JSON from elsewhere decodes to that content. Malformed text, or data that does not fit the requested type, is refused with a failure, never accepted in part and never a crash.",
  ["inputs"], "every value of every serializable type and every text offered for decoding",
  "Escapes, number forms, nesting and type shapes multiply; tests have chosen examples.",
  ["src/std/json.rs", "src/std/data_text.rs", "src/std/serde.rs", "src/std/prelude/json.fer", "src/std/prelude/data_text.fer", "src/std/prelude/serde_impl.fer"],
  [("JSON codec", "src/std/json.rs"), ("data text codec", "src/std/data_text.rs"), ("derivation", "src/std/serde.rs")])

p("C17", "Pattern matching is exhaustive when accepted and picks the first match",
  "A match is accepted only if its arms cover every value of the matched type, and a match whose arms cover all cases is accepted; missing a case without a default is rejected at compile time. At run time the first arm whose pattern matches is taken, its bindings hold exactly the matched components, and nothing else is evaluated.",
  ["programs", "inputs"], "every set of patterns over booleans, literals, tuples, records and variants, and every scrutinee value",
  "Exhaustiveness is a combinatorial question over nested finite types; tests enumerate a few.",
  ["src/hir/match.rs", "src/desugar/patterns.rs", "src/ast/patterns.rs", "src/types/type_inference/expr.rs"],
  [("match compilation", "src/hir/match.rs"), ("pattern desugaring", "src/desugar/patterns.rs")])

p("C18", "Trait resolution is unique and coherent",
  "A call through a trait runs the method of the single implementation applicable to the argument types, through any depth of generic functions, generic implementations, associated types and associated constants. Overlapping implementations, implementations of foreign traits for only foreign types, missing or extra methods, and uses without an implementation are rejected, and none of this depends on declaration order.",
  ["programs"], "every set of traits, implementations and uses",
  "Overlap, constraint discharge and dictionary passing depend on how types unify across several declarations; tests list examples.",
  ["src/types/trait_solver.rs", "src/types/coherence.rs", "src/types/trait.rs", "src/module/trait_impl.rs", "src/hir/dictionary.rs", "src/mir/pass/monomorphize.rs"],
  [("solver", "src/types/trait_solver.rs"), ("coherence", "src/types/coherence.rs"), ("dictionaries", "src/hir/dictionary.rs")])

p("C19", "Incremental recompilation equals compiling everything afresh",
  "After any history of module additions and source updates, valid or not, a module that is reported up to date behaves exactly as it would in a new session compiled from the current sources in dependency order, and a module whose current source or dependencies do not compile is reported stale with diagnostics. A module whose dependency changed is never run against the old version as if it were up to date; the source version changes exactly when the text changes, and the revision at every attempt.",
  ["histories"], "every sequence of edits to a graph of modules",
  "Staleness and cascading depend on the edit history and graph; tests have a few two- or three-module scripts.",
  ["src/compiler/session.rs", "src/compiler/pipeline.rs", "src/compiler/artifacts.rs", "src/module/mod.rs"],
  [("cascade recompilation", "src/compiler/pipeline.rs"), ("module registry", "src/compiler/session.rs"), ("artifact invalidation", "src/compiler/artifacts.rs")],
  state=[("module entries", "fresh or stale modules with dependencies, versions and revisions", "src/compiler/session.rs")],
  observe=["CompilerSession::modules", "CompilerSession::update_module_source"])

p("C20", "Sessions are deterministic, isolated and undisturbed by unrelated work",
  "Compiling and running a program gives the same acceptance, diagnostics, signatures, intermediate code and result in a fresh session, in a session that has compiled, failed, run, rendered or been reset before, and beside other sessions with other settings. Rendering a value, inspecting code, or asking for a default value changes nothing observable.",
  ["histories", "configurations"], "every history of unrelated activity preceding a compilation, and every session setting beside it",
  "State leaks need a particular preceding history; each test starts from a new process.",
  ["src/compiler/session.rs", "src/types/type.rs", "src/ide/compiler.rs", "src/mir/pass/mod.rs"],
  [("session state and reset", "src/compiler/session.rs"), ("shared standard library", "src/compiler/session.rs"), ("type interning", "src/types/type.rs")])

p("C21", "The compiled-library cache is transparent",
  "Starting with no cache, a valid cache, a disabled cache, or a cache that is truncated, corrupted, swapped, unreadable or concurrently written gives a working session with identical behaviour; a cache entry that is not exactly right is ignored and replaced, never trusted and never fatal.",
  ["fault_sequences", "schedules", "configurations"], "every corruption of the cache file, every unusable cache location, and concurrent starts",
  "Corruption has unboundedly many forms and tests try a few.",
  ["src/compiler/snapshot/cache.rs", "src/compiler/snapshot/envelope.rs", "src/compiler/snapshot/std_snapshot.rs"],
  [("cache lookup and publication", "src/compiler/snapshot/cache.rs"), ("envelope validation", "src/compiler/snapshot/envelope.rs"), ("decoding", "src/compiler/snapshot/std_snapshot.rs")])

p("C22", "Places: projections and subscripts read and write exactly their place",
  "Reading, assigning, compound-assigning or passing mutably a place built from any nesting of variables, fields, tuple positions, array indices, custom projections and named or first-class subscripts reads or writes exactly that place, evaluates each index and argument once and in order, and runs a scoped accessor's entry code once before and its exit code once after the access, also when the access fails. An index out of range fails without changing anything.",
  ["programs", "histories"], "every nesting of place expressions and accesses",
  "Place evaluation combines with ownership, failure and optimization; tests have a few dozen subscript snippets.",
  ["src/hir/emit_subscripts.rs", "src/module/generated_projection.rs", "src/eval.rs", "src/emit_mir.rs", "src/mir/pass/bounds_check.rs", "src/std/array_type.rs"],
  [("subscript lowering", "src/hir/emit_subscripts.rs"), ("generated projections", "src/module/generated_projection.rs"), ("place evaluation", "src/eval.rs")])

p("C23", "Names resolve to one visible definition or the program is rejected",
  "A name used in a module resolves to the innermost local, else to the module's own or imported definition, exactly as scoping, visibility and use declarations prescribe, whatever the number, nesting and order of modules; private items of other modules cannot be reached by any path. Ambiguous imports, duplicate definitions, missing names and import cycles are rejected.",
  ["programs"], "every arrangement of modules, visibilities, use declarations, paths and shadowing",
  "Resolution depends on the combination of import forms and scopes; tests sample a few multi-module programs.",
  ["src/desugar/import_resolver.rs", "src/module/module_env.rs", "src/module/uses.rs", "src/module/mod.rs"],
  [("import resolution", "src/desugar/import_resolver.rs"), ("lookup", "src/module/module_env.rs"), ("visibility", "src/module/mod.rs")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    for f in x["anchors"]["files"] + [m["where"] for m in x["anchors"]["mechanism"]]:
        assert os.path.exists("/repo/" + f), f
with open(here + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
