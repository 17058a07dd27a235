#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, BUILT = [], {}


def prop(id, title, statement, over, qtext, why, files, mech, note=None, technique=None, state=None, observe=None):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        p["anchors"]["observe_at"] = observe
    PROPS.append(p)
    if technique:
        BUILT[id] = (technique, note)


T = "crates/trunk-ir/src/"
P = "crates/tribute-passes/src/"

prop("P01", "Simplification and dead-code removal keep what a program does",
     "For every program and every argument tuple, the simplified program (canonicalization, dead-code elimination, or both) returns the same value, produces the same external calls with the same arguments in the same order, and traps when the original does (a trap of an operation whose result is never used may disappear). Constants are folded at the exact width and signedness of their type. The result stays well typed.",
     ["programs", "inputs"], "all programs over integer/float arithmetic, structured and CFG control flow, calls, structs and variants; all argument values",
     "The unit tests check a handful of identities on fixed literals; folding is defined by operation x type x literal, and interactions between patterns, nesting and use lists are unbounded.",
     [T + "transforms/canonicalize.rs", T + "transforms/dce.rs", T + "dialect/arith.rs", T + "dialect/scf.rs", T + "rewrite/applicator.rs", T + "op_interface.rs"],
     [("constant folding and identities of the arithmetic operations", T + "dialect/arith.rs"),
      ("purity registry consulted before erasing", T + "op_interface.rs"),
      ("greedy pattern application", T + "rewrite/applicator.rs")],
     technique="TLA+ operational semantics of the IR (TLC) + conformance of really transformed programs",
     note="TLC executes the TLA+ machine on every generated source program and on what the real passes made of it; exhaustive over operation x width x special constants, sampled over larger programs (seeded), source runs bounded to 1500 steps.",
     observe=["transformed module, dumped from the real IR data structures"])
prop("P02", "Inlining keeps what a program does and always terminates",
     "For every program and arguments, inlining calls preserves the returned value, the sequence of external calls and trapping, including for recursive, mutually recursive, indirectly called and multi-block callees. The optimizer terminates on every call graph, and the result stays well typed.",
     ["programs", "inputs"], "all call graphs (cycles, tail calls, address-taken and external functions), all bodies, all arguments",
     "Tests inline a few hand-written callees; renaming of values, blocks and nested regions, and the choice of callees depend on the whole call graph.",
     [T + "transforms/inline.rs", T + "transforms/call_graph.rs", T + "rewrite/helpers.rs"],
     [("callee eligibility: not recursive, not external, size/single-use rule", T + "transforms/inline.rs"),
      ("cloning with value and block remapping", T + "transforms/inline.rs")],
     technique="TLA+ operational semantics of the IR (TLC) + conformance of really inlined programs",
     note="Generated call graphs of up to 6 functions with mutual recursion, tail and indirect calls; each program before/after the real inliner is executed by the TLA+ machine and compared; bounded runs.")
prop("P03", "Lowering structured control flow keeps what a program does",
     "For every program and arguments, replacing conditionals, loops and switches by branches between blocks preserves the returned value, the external calls and trapping, for any nesting of conditionals, loops (break/continue from any depth) and switches (default, duplicate or missing cases). Every value reaching a join keeps its type.",
     ["programs", "inputs"], "all nestings of structured control operations, all loop-carried values, all arguments",
     "Tests compare the shape of a few lowered snippets and never execute them.",
     [T + "transforms/scf_to_cf.rs", T + "dialect/scf.rs", T + "dialect/cf.rs"],
     [("block splitting and branch insertion per structured operation", T + "transforms/scf_to_cf.rs")],
     technique="TLA+ operational semantics of the IR (TLC) + conformance of really lowered programs",
     note="Generated control-heavy programs before and after the real lowering are executed by the TLA+ machine and compared; bounded runs.")

prop("P04", "Only unreachable functions are removed, and call cycles are recognised",
     "For every module, dead-function elimination removes exactly the functions that cannot be reached by calls, tail calls or taken addresses (in any nested region or block) from the program entries, exported functions, functions with a foreign calling convention and configured entry points, in nested modules too; running the program afterwards gives the same behaviour. The call-graph analysis lists exactly the references of each function, counts the direct call sites, reports as recursive exactly the functions that can come to call themselves, and groups mutually recursive functions in one component numbered after the components it calls.",
     ["programs"], "all reference graphs between functions of any size, with nested modules, externals, exports and configured roots",
     "Tests use two or three functions; reachability and cycles are closures over the whole reference graph.",
     [T + "transforms/global_dce.rs", T + "transforms/call_graph.rs", T + "walk.rs"],
     [("roots, references and worklist", T + "transforms/global_dce.rs"), ("Tarjan components", T + "transforms/call_graph.rs")],
     technique="TLA+ reachability machine (ModGraph, TLC) against recorded results; IR semantics for behaviour",
     note="All 3-function reference graphs x reference kinds exhaustively plus random modules of up to 9 functions with nested modules; TLC derives roots, reachability, edges, sites, recursion, components and compares with what the real analyses returned.",
     observe=["functions left in the module, reported removals, CallGraph fields, tarjan_scc, recursive_functions"])
prop("P05", "The IR graph stays consistent under every sequence of edits",
     "After any sequence of structural operations (create, attach, insert, detach, remove operations, blocks and regions; set or replace operands and successors; replace all uses; clone operations and regions; splice and erase), the IR graph is the one the operations prescribe: every operand is in the use list of its value exactly once and nothing else is, results and block arguments know their owner and position, every operation, block and region has at most one parent and is listed by it in order, and a clone is a disjoint copy in which exactly the values defined inside are renamed.",
     ["histories"], "all sequences of structural edits over any number of operations, blocks, regions and values",
     "Unit tests exercise one or two edits on a fixed small graph and inspect the touched entry only; consistency is a property of histories.",
     [T + "context.rs", T + "ops.rs", T + "refs.rs", T + "rewrite/helpers.rs"],
     [("use lists, parents and result tables", T + "context.rs"), ("cloning and inlining helpers", T + "rewrite/helpers.rs")],
     technique="TLA+ specification of the IR graph (IrGraph, TLC) + validation of recorded edit histories",
     note="Random edit histories (500 x 50 edits quick) executed on the real IrContext; after each edit the complete observable graph is recorded and TLC checks that it is the specification's successor state; invariants of the spec itself are checked along.",
     observe=["complete dump of operations, blocks, regions, values and use lists after each edit"])
prop("P06", "A module written as text reads back as the same module",
     "For every module whose values are defined before they are used in reading order and whose blocks are not empty: printing it and parsing the text gives the same module - the same operations in the same order with the same operands, successors, results, types, regions and block arguments and the same attributes (integers up to 128 bits, finite floats bit for bit, any string, byte string and symbol, nested lists, types and locations) - whatever type aliases exist or are invented, at any nesting of regions and modules, for the generic and all custom operation formats. No text makes the parser crash, as long as its nesting fits the stack.",
     ["programs", "inputs"], "all modules over generic operations, functions, closures, control functions and nested modules; all attribute and type values; all texts",
     "Unit tests compare a few fixed texts; quoting, aliasing, label elision and the grammar's look-ahead interact.",
     [T + "printer.rs", T + "parser/raw.rs", T + "parser/builder.rs", T + "dialect/func.rs", "crates/tribute-ir/src/dialect/closure.rs", "crates/tribute-ir/src/dialect/tribute_control.rs"],
     [("naming of values, blocks and type aliases", T + "printer.rs"), ("grammar", T + "parser/raw.rs"), ("scopes", T + "parser/builder.rs")],
     technique="TLA+ specification of writing and reading modules (IrText, TLC) against recorded print/parse histories",
     note="Random modules built through the library API, three print/parse rounds each plus damaged texts; TLC checks that each recorded result is the module of the specification. Not covered: NaN/infinite float attributes, extra attributes of core.module, attributes of a function's core.func type, block-argument names.",
     observe=["dump of the IR before printing and after parsing"])
prop("P07", "Validation and dominance judge every module and control-flow graph right",
     "For every control-flow graph of a region: a block dominates another exactly if every path from the entry to it goes through the first, reachability, predecessors and successors are those of the last operation of each block, and the graph is called valid exactly if no edge leaves the region. For every module: validation reports exactly the operands that refer to a value not in scope (defined in the region or one around it within the function, and nothing from outside the function), rejects exactly the modules whose recorded uses differ from the operands or that contain an operation breaking its local rules (float comparison predicates; shape, terminators and arity of scf.if; result arity of loops and switches; callee type, arity and argument types of indirect tail calls), and warns once for each direct call whose argument count differs from the signature of a function of the module. It never crashes.",
     ["programs", "inputs"], "all control-flow graphs and all modules, well-formed or damaged",
     "Unit tests look at a diamond, a loop and single hand-made faults; both analyses are relied on by later passes for every function.",
     [T + "dominance.rs", T + "validation.rs", T + "walk.rs"],
     [("iterative dominator sets", T + "dominance.rs"), ("scope, use-chain, operation and arity rules", T + "validation.rs")],
     technique="TLA+ specifications of graph walks (Dominance) and of well-formed modules (IrValid), TLC, against recorded verdicts",
     note="All graphs of up to 3 blocks with up to 2 successors exhaustively, larger ones sampled; random module trees with injected faults. TLC derives every verdict from the description and compares it with what the real analyses returned.",
     observe=["DominatorTree queries, validation errors and warnings"])
prop("P08", "Dialect conversion rewrites exactly what target and patterns prescribe",
     "For every module, conversion target, set of rewrite patterns and type conversion: each sweep visits blocks in order and in each the operations that were there when it was entered, inner operations before the one containing them; recursively legal operations and everything in them stay untouched, legal operations are never rewritten; the first pattern that really changes something wins, once per operation and sweep; replaced results are renamed everywhere; with type conversion switched on block arguments take their converted type and operands of operations that are not legal are cast. Legality follows operation rules before dialect rules before the fallback. Conversion stops at the first sweep without change or at the limit, and partial (full) conversion succeeds exactly if nothing illegal (nothing not legal) is left, naming what is left. Resolving casts removes exactly those whose types agree after conversion or that can be materialised, and reports the others.",
     ["programs", "configurations"], "all modules, targets, pattern sets, converters, scopes and iteration limits",
     "Every lowering pass is an instance of this framework; unit tests run one pattern over one or two operations under a simple target.",
     [T + "rewrite/applicator.rs", T + "rewrite/conversion_target.rs", T + "rewrite/rewriter.rs", T + "rewrite/signature_conversion.rs", T + "rewrite/type_converter.rs", T + "conversion/resolve_unrealized_casts.rs"],
     [("sweeps and fixpoint", T + "rewrite/applicator.rs"), ("legality tiers", T + "rewrite/conversion_target.rs"), ("application of mutations", T + "rewrite/rewriter.rs"), ("cast resolution", T + "conversion/resolve_unrealized_casts.rs")],
     technique="TLA+ specification of the conversion machine (Rewrite), TLC, against recorded runs of the real framework",
     note="Random modules of up to 11 operations with nested regions, random targets, patterns (rename, erase with replacement, insert, add to module, claim nothing, signature conversion), type maps and materialisers; TLC sweeps the model and requires the same module, counts and verdict after every sweep and for whole conversions.",
     observe=["module after each sweep, change counts, conversion verdicts, cast resolution"])
prop("P09", "Pass managers run passes in the prescribed order on live operations only",
     "For every tree of pass managers, every tree of operations and whatever the passes do (erase, add or change operations, fail, break an invariant): passes run in registration order on the target, nested managers afterwards, each on the operations of its kind at or below the target in reading order, collected when the manager is reached; observer and verifier are called after each pass with the innermost installed hook; nothing is run on or shown an operation that was erased or became another kind; only isolated operations anchor nested managers; the first failure stops the run and names the pass. Cached analyses are handed out unchanged until dropped, computed exactly when absent, and dropping affects exactly the named entries.",
     ["histories", "schedules"], "all manager trees, operation trees and sequences of pass effects; all histories of cache operations",
     "Unit tests run one or two recorders over a flat module; interactions of erasing, adding, hooks and nesting are not sampled.",
     [T + "pass.rs", T + "analysis.rs", T + "walk.rs", T + "op_interface.rs"],
     [("dispatch, liveness of targets, hooks", T + "pass.rs"), ("cache keyed by analysis and target", T + "analysis.rs")],
     technique="TLA+ specification of the pass-manager machine (PassMgr) and analysis cache (AnaCache), TLC, against recorded runs",
     note="Random manager trees (depth 4) over random operation trees (10 operations) with scripted pass effects; TLC runs the model on the same script and requires the same event sequence and result. Cache histories replayed step by step.",
     observe=["sequence of pass, observer and verifier invocations and the error; values returned by the cache"])
C = "crates/trunk-ir-cranelift-backend/src/"
prop("P10", "Native code does what the program says",
     "For every program and arguments, the object code produced by the native pipeline (with and without optimization) returns the value, performs the external calls in the order and traps exactly as the program's meaning prescribes: integer widths and wrap-around, signed and unsigned comparison, shifts and division, float arithmetic and conversions, calls (direct, indirect, recursive), control flow of any nesting, struct and variant construction, tests and field access. Every well-formed program of this language compiles.",
     ["programs", "inputs"], "all programs over arithmetic, control flow, functions, structs and enums; all argument values",
     "Unit tests compare printed IR of single lowered operations; no test runs the produced machine code.",
     [C + "function.rs", C + "translate.rs", C + "passes/arith_to_clif.rs", C + "passes/func_to_clif.rs", C + "passes/cf_to_clif.rs", C + "passes/adt_to_clif.rs", C + "adt_layout.rs",
      P + "native/type_converter.rs", P + "native/adt_rc_header.rs", P + "native/rtti.rs", P + "native/entrypoint.rs"],
     [("operation-by-operation lowering to the clif dialect", C + "passes/"), ("translation to Cranelift and object emission", C + "translate.rs"),
      ("layout of structs and enums", C + "adt_layout.rs")],
     technique="TLA+ operational semantics of the IR (TLC) + traces recorded from the executed machine code",
     note="Every generated program is compiled by the real pipeline, linked, executed in a child process, and its recorded trace is compared with the TLA+ machine's run on the source; operation templates exhaustive over special constants, programs sampled (seeded).",
     observe=["external calls, result and signals of the executed object code"])

W = "crates/trunk-ir-wasm-backend/src/"
prop("P11", "WebAssembly code does what the program says",
     "For every program and arguments, the module produced by the wasm pipeline (with and without optimization) is accepted by a WebAssembly engine and, when run, returns the value, performs the external calls in the order and traps exactly as the program's meaning prescribes: integer arithmetic with wrap-around, comparison, shifts and division, float arithmetic and conversions, direct, tail, recursive and indirect calls, nested conditionals and loops with break and continue, struct and variant construction, tests and field access. Every well-formed program of this language compiles. (The backend does not take: more than one conditional or loop result or carried value, scf.switch, unstructured control flow, widening of i1.)",
     ["programs", "inputs"], "all programs over arithmetic, structured control flow, functions, structs and enums; all argument values",
     "Unit tests compare printed IR of single lowered operations or check that bytes were produced; none runs the module.",
     [W + "passes/arith_to_wasm.rs", W + "passes/scf_to_wasm.rs", W + "passes/func_to_wasm.rs", W + "passes/adt_to_wasm.rs", W + "passes/wasm_gc_to_wasm.rs", W + "emit.rs", W + "emit/",
      P + "wasm/lower.rs", P + "wasm/type_converter.rs"],
     [("operation-by-operation lowering to the wasm dialect", W + "passes/"), ("emission of the binary module", W + "emit.rs"),
      ("entry point, imports, memory", P + "wasm/lower.rs")],
     technique="TLA+ operational semantics of the IR (TLC) + traces recorded from the executed WebAssembly module",
     note="Every generated program is compiled by the real pipeline and run in node's engine; its recorded trace is compared with the TLA+ machine's run on the source; operation templates exhaustive over special constants, programs sampled (seeded).",
     observe=["external calls, result and traps of the executed module"])

prop("P12", "Reference counting never frees early, twice or with the wrong size, nor leaks",
     "For every program whose heap values are managed references (boxed values, and objects handed out by constructor functions; passed as arguments, returned, handed over by direct and indirect tail calls of the CPS convention, joined by branches, carried round loops, stored in objects, loaded back, shared any number of times) and for every combination of the reference-counting optimizations (borrowed parameters, borrowed temporaries, pair elimination): the compiled program behaves as the program's meaning prescribes, memory is accessed only while it is allocated, every object is released at most once and with its own size, dropping the last reference to an object drops the references it owns, and when the program returns no managed object is left. Programs that also use unmanaged object pointers may leak them, but never access or free released memory.",
     ["programs", "inputs", "configurations"], "all programs over boxes and objects, all values, all eight policy combinations",
     "Unit tests count retain/release operations in hand-written IR; whether the counts balance on every path of every program is never executed.",
     [P + "native/rc_insertion.rs", P + "native/rc_optimization.rs", P + "native/rc_lowering.rs", P + "native/ownership_summary.rs", P + "native/rtti.rs", P + "native/adt_rc_header.rs", P + "native/tribute_rt_to_clif.rs"],
     [("liveness-based insertion of retains and releases, borrow inference", P + "native/rc_insertion.rs"), ("pair elimination", P + "native/rc_optimization.rs"),
      ("expansion of retain/release, deep release", P + "native/rc_lowering.rs"), ("per-type release functions", P + "native/rtti.rs")],
     technique="TLA+ heap automaton (RcTrace) and IR semantics (IrSem), TLC, over traces recorded from executed machine code",
     note="Generated programs over managed references are compiled under rotating policies and executed with a recording allocator that makes freed pages inaccessible; TLC replays allocation/release traces in RcTrace and outcomes in IrEquiv. Two known findings (unmanaged ADT pointers) are listed.",
     observe=["allocations, releases and faults of the executed object code"])

prop("P13", "Effect handlers and first-class functions keep their meaning when lowered",
     "For every program of the direct-style control language (functions and lambdas of the three calling conventions with captured values, function references, nested conditionals and switches, handle expressions with tail-resumptive fn arms, resumable op arms and never-returning op arms, performs, one-shot resumptions): converting it to continuation-passing style with tribute_control_to_cps gives a program with the same outputs in the same order and the same result: a perform reaches the innermost enclosing handler of its operation, an fn arm answers in place, a resume continues the handled body exactly where it performed, an abandoned resumption never runs, a body that finishes passes its value through the completion exactly once, and resuming twice traps. For programs without handlers the same holds after lambdas are lifted (LowerClosureLambda) and closures become code/environment structures (closure_lower), and, for programs of direct convention, for the native and WebAssembly code. A module that tribute_control_to_cps or lower_cps_signatures_to_physical refuses is left exactly as it was (text and type aliases).",
     ["programs", "inputs"], "all direct-style programs of the language except the known-finding shapes, all inputs; all refused modules",
     "Unit tests compare the printed result of single hand-written conversions; none of them executes a converted program, and nesting, capturing and resuming interact.",
     [P + "tribute_control_to_cps.rs", P + "lower_closure_lambda.rs", P + "closure_lower.rs", P + "target_abi.rs", "crates/tribute-ir/src/dialect/tribute_control.rs"],
     [("CPS conversion of calls, handles, performs, resumes", P + "tribute_control_to_cps.rs"), ("lambda lifting", P + "lower_closure_lambda.rs"),
      ("closure structures and environments", P + "closure_lower.rs"), ("atomic refusal", P + "target_abi.rs")],
     technique="TLA+ semantics of deep one-shot effect handlers, closures and evidence (EffSem/EffEquiv, Reject), TLC; conformance by translation validation of every generated program and execution of its machine code",
     note="Generated programs run in the TLA+ handler machine before and after each real conversion and must give the same outcome; direct programs also run natively and in node. Refusals: recorded histories of conversion calls on damaged modules. One known finding (general performs outside the handle's own body).",
     observe=["outputs and result of the program before/after conversion; the module text after a refusal"])

prop("P14", "Built-in operations mean what the language says, natively and in WebAssembly",
     "For every program over the language's built-in operations and values: the Int, Nat and Float operators (called directly or passed as functions) wrap, compare (Nat unsigned) and divide as documented; byte strings written as literals hold exactly those bytes (0 to 255, also when empty or repeated), and their length, indexing, slicing, concatenation and range equality give the bytes asked for; an index or range outside the string stops the program instead of reading memory; lists index and prepend persistently; writes put exactly the given bytes, and the newline asked for, on standard output in program order; and a value converted to the uniform representation and back (integers, floats, structs, byte strings; through variables, functions taking and returning uniform values, and indirect calls) is the same value. This holds for native code linked with the runtime library and for WebAssembly (there without lists and slices, and for integers in uniform representation within the documented 31 bits).",
     ["programs", "inputs"], "all programs over built-in operators, byte strings, lists, writes and uniform values; all arguments",
     "Unit tests of the intrinsic lowerings compare printed IR; those of the runtime call single functions; no test executes a compiled program that uses them together.",
     [P + "intrinsic_to_arith.rs", P + "io_lowering.rs", P + "list_intrinsics.rs", P + "native/", P + "wasm/", "crates/tribute-runtime/src/", C + "translate.rs", W + "emit/", P + "type_converter.rs"],
     [("operator intrinsics become arithmetic", P + "intrinsic_to_arith.rs"), ("list and I/O intrinsics", P + "io_lowering.rs"), ("byte string constants and accessors, boxing", P + "native/"),
      ("byte strings and uniform values as GC objects", P + "wasm/"), ("runtime library", "crates/tribute-runtime/src/")],
     technique="TLA+ operational semantics of the built-in operations (IrSem), TLC; traces recorded from executed machine code and WebAssembly",
     note="Generated programs mixing built-ins, byte strings, lists, uniform values and writes are compiled by the real pipelines, linked with the real runtime, executed (writes recorded by an interposed write/fd_write), and compared with the TLA+ machine's run. Values sampled from a pool of special values (seeded).",
     observe=["bytes written, external calls, result, traps"])

prop("P15", "Standard input and output survive every answer of the operating system",
     "For every program of line reads and writes and every history of answers of the operating system (data arriving in any chunks, interrupted calls, short transfers, failures, end of input at any point): a read returns the bytes up to the next newline, without the newline and one carriage return before it, wherever the chunks end; it never asks for input while a whole line is waiting, and what follows the newline is kept for the next read; at the end of the input an unfinished line is still returned, an empty one is end of file; a line that is not UTF-8 is reported as an encoding error and consumed; a failure is reported with its code; an interrupted call is repeated without losing or repeating a byte. A write offers exactly the bytes not yet taken, in order, until all are taken (the newline last); after a failure, or when nothing is taken, it gives up instead of spinning. Natively (linked with the runtime) reads and writes, in WebAssembly writes.",
     ["fault_sequences", "programs", "histories"], "all programs of reads and writes, all sequences of answers of read and write",
     "Unit tests of the runtime feed one or two hand-written byte sources to a helper; no test runs a compiled program against interrupted, short or failing system calls.",
     ["crates/tribute-runtime/src/lib.rs", "crates/tribute-runtime/src/tls.rs", P + "io_lowering.rs", P + "native/io.rs", P + "wasm/io.rs"],
     [("line reading over a buffered descriptor, full writes", "crates/tribute-runtime/src/lib.rs"), ("result descriptor to ReadLineResult", P + "native/io.rs"), ("fd_write loop in linear memory", P + "wasm/io.rs")],
     technique="TLA+ machine of line I/O over system calls (Io, exhaustively model checked in IoModel), TLC; IoTrace checks the system calls and reports recorded from executed machine code and WebAssembly under exhaustively enumerated and random fault histories",
     note="The machine is model checked for all environments of up to 7 calls. One compiled command interpreter per way of compiling runs under every history of up to 4 (thorough 5) answers over a small alphabet and random longer ones (buffer-sized chunks, large writes); each recorded call must be one the machine can make.",
     observe=["every read/write system call with its bytes, every result the program sees"])

prop("P16", "The runtime library keeps its promises to compiled code under every history",
     "For every history of calls of the runtime library, on any number of threads: extending evidence gives a map that answers with the newest handler (tag and both closures) for the ability it was extended with and leaves every older evidence value answering as before, however many abilities are present and in whatever order they were added; the one-time initialization creates its key exactly once and no caller returns from it before the key exists, however the callers interleave; prompt tags are never drawn twice by one thread and another thread's draws do not disturb them; byte strings built, joined and cut hold exactly the right bytes, a cut keeps what it is cut from alive (its count goes up) and out-of-range cuts abort, comparison is exact and false outside the bounds; memory handed out is aligned, disjoint from everything still in use and keeps its contents; with the sanitizing allocator a freed block reads as poisoned and stays out of use while it is quarantined, and writing next to a block or freeing it twice is reported by an abort at the free.",
     ["histories", "schedules", "inputs"], "all histories of runtime calls, all interleavings of initializing threads",
     "Unit tests call each entry point once or twice in a fixed order on one thread; maps of many abilities, older evidence after newer extensions, races of the initialization and quarantine turnover are histories.",
     ["crates/tribute-runtime/src/lib.rs", "crates/tribute-runtime/src/tls.rs", "crates/tribute-runtime/src/asan.rs", "crates/tribute-rc/src/lib.rs"],
     [("evidence maps, byte strings, allocation", "crates/tribute-runtime/src/lib.rs"), ("one-time initialization, per-thread state", "crates/tribute-runtime/src/tls.rs"), ("red zones, quarantine", "crates/tribute-runtime/src/asan.rs")],
     technique="TLA+ machine of the runtime library (Runtime; initialization protocol model checked over all interleavings in RtInit), TLC; RuntimeTrace checks histories recorded from the real static library driven from C, with and without the sanitizing allocator, threads delayed inside key creation",
     note="The protocol model covers 4 threads exhaustively; the recorded histories are random (thousands per run), each one event by event a behaviour of the machine.",
     observe=["every call's result, addresses and contents of blocks, reference counts, abort or normal end"])

prop("P17", "Compiled effect handlers behave like the handlers of the source program",
     "For every program with abilities in the form the front end emits today (ability.legacy_call and legacy_perform, legacy_handle_dispatch with done and escape regions, handler and fn dispatcher closures, functions and lambdas of the direct, evidence and continuation-passing conventions): the native code printed by the shared passes (closure lifting and conversion, ability-perform lowering, tail-resumptive conversion, evidence resolution, handle-dispatch lowering), with or without optimization and under every reference-counting policy, linked with the real runtime, gives the outputs, in order, and the result of the direct-style program: a perform reaches the innermost handler of its ability that is still installed at that point, with its arguments in order, through any number of calls, closures, conditionals and nested handlers; an fn arm answers in place; a resume as an arm's last action continues exactly behind the perform; an arm that does not resume ends the handled expression with its value and skips the rest of the body; a handle's completion runs exactly once on the body's value, outside the handler; code after a handle sees the surrounding handlers again. Op arms that themselves perform are a known finding.",
     ["programs", "inputs"], "all programs of the legacy ability form whose op arms perform nothing and resume last, all inputs",
     "The repository's pass tests compare printed IR of single programs and its end-to-end tests run a few dozen; the interplay of nested handlers, leaving a handler, conventions and optimization is not sampled.",
     [P + "lower_ability_perform.rs", P + "tail_resumptive.rs", P + "resolve_evidence.rs", P + "lower_handle_dispatch.rs", P + "closure_lower.rs", P + "lower_closure_lambda.rs", P + "native/evidence.rs", "crates/tribute-runtime/src/lib.rs"],
     [("performs look up evidence", P + "lower_ability_perform.rs"), ("fn operations answered in place", P + "tail_resumptive.rs"), ("evidence threaded, extended at handles", P + "resolve_evidence.rs"),
      ("done and escape regions", P + "lower_handle_dispatch.rs"), ("closures", P + "closure_lower.rs"), ("native evidence operations", P + "native/evidence.rs")],
     technique="TLA+ semantics of effect handlers (EffSem/EffEquiv), TLC; outcomes recorded from executed machine code of the same program in its compiled form",
     note="One random abstract program is printed twice, as direct-style program (whose meaning the TLA+ machine computes) and in the front end's legacy form, which the real passes compile; its executed object code must have the same outcome. The WebAssembly back end emits invalid modules for handlers (not claimed, see DESIGN.md).",
     observe=["outputs and result of the executed program"])

prop("P18", "Exactly the well-formed effectful programs are accepted",
     "For every program of the direct-style control language and every set of declared ability operations: validation accepts it exactly if it is well formed, and otherwise names exactly the operations at fault (and reports malformed types and doubly declared operations). Well formed means: every operation has its attributes, operands, results, regions, terminators and agreeing types; callable and resume-token types hold only resolved logical types and a known convention; calls and function references resolve within their own module to one function of that signature, a reference never weaker than its target's convention; functions see nothing from outside and lambdas exactly what they capture, once; performs and handlers agree with the declared operation; a clause is handled once per handle; a resume token appears only as last argument of a resumptive clause, and reaches at most one resume on every path - directly or through lambdas each used at most once, in its own clause only, exclusive branches of conditionals counting separately. No accepted program resumes a token twice on one run of a clause. Validation never crashes.",
     ["programs"], "all programs of the control language, well-formed or damaged, with all sets of declarations",
     "The CPS conversion relies on what validation accepts; the unit tests check one hand-made fault per rule and look for a message, not that right programs pass and that only the operations at fault are named.",
     ["crates/tribute-ir/src/dialect/tribute_control.rs"],
     [("local rules", "crates/tribute-ir/src/dialect/tribute_control.rs"), ("symbol scopes, captures, declarations, token ownership", "crates/tribute-ir/src/dialect/tribute_control.rs")],
     technique="TLA+ specification of well-formed control programs (Control), TLC, against recorded verdicts of the real validator",
     note="Random programs whose clauses hand their resume token through lambdas, branches, nested handles and recursive calls, and generated effectful programs, with zero to two random edits out of 26 kinds; TLC judges every operation of every program and requires the same verdict and the same operations named; it also checks on the model that well-formed programs resume at most once.",
     observe=["validation errors: operations named, errors without operation"])

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
         "checks": [{"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                     "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                     "technique": t, "level": "model_checking", "level_note": n} for i, (t, n) in BUILT.items()],
         "not_applicable": []}
    for p in PROPS:
        if p["id"] not in BUILT:
            m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        f.write(json.dumps(m, indent=1) + "\n")
