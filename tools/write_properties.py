#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list is easy to edit)."""
import json
import os

M, TH, W, IR, DEF, ITEM, TY = ("src/main.rs", "src/thumb.rs", "src/wrapper.rs", "src/ir.rs", "src/ir/define.rs",
                               "src/ir/item.rs", "src/ir/ty.rs")
P = []


def p(id, title, statement, over, text, tests, files, *mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=["stdout, stderr and exit status of the cargo-call-stack executable"])))


p("C01", "An exact maximum is never exceeded when the program runs",
  "When the tool states an exact maximum stack usage for a function of an embedded (Thumb) program, no execution of that "
  "function in that very program image uses more stack than stated, counting everything it calls. The local usage stated for a "
  "function is never exceeded by the function's own frame either.",
  "programs inputs", "every program the pinned toolchain builds with fat LTO for a bare-metal Thumb target, and every run of it",
  "the tests compare the text of a few graphs; none executes the program that was analysed",
  [M, TH], ("maximum of a node over its callees", "src/main.rs run(), 'compute max stack usage'"),
  ("local stack usage from .stack_sizes and from machine code", "src/main.rs run(); src/thumb.rs analyze()"))
p("C02", "Every call a program executes is an edge of its call graph",
  "Whenever a running program transfers control from one function to another (a call or a tail call, direct or through a "
  "pointer), the printed graph has that edge, or the path through an indirect-call node that allows it; where the tool cannot "
  "know the callee the caller has an edge to an unknown-callee node.",
  "programs inputs", "every program the pinned toolchain builds with fat LTO for the supported bare-metal targets, and every run of it",
  "the tests check a handful of named edges in a dozen programs and never run them",
  [M, TH, DEF], ("edges from IR calls, from machine code and between indirect-call nodes and candidate callees", "src/main.rs run()"))
p("C03", "Machine-code calls and tail calls appear exactly as the branches say",
  "For a Thumb program, the graph has an edge from one function to another because of machine code if and only if the caller "
  "contains a direct branch instruction (with or without link, conditional or not, in any encoding) whose target is the start "
  "of the callee. Branches inside a function produce no edge.",
  "inputs programs", "every valid Thumb instruction stream, every branch distance in both directions, every placement of functions in executable sections",
  "the unit tests decode three literal encodings and the firmware programs contain only short forward and backward calls",
  [TH, M], ("branch decoding and target arithmetic", "src/thumb.rs analyze(), sign_extend()"),
  ("function and section lookup by address", "src/main.rs run(), 'find out the call graph from machine code'"))
p("C04", "Data embedded in code is never interpreted as instructions",
  "Literal pools, jump tables and other data inside executable sections have no influence on the call graph or on any stack "
  "figure: changing only data words changes nothing in the output.",
  "inputs programs", "every arrangement of code and data (any alternation of mapping symbols, repeated mapping symbols, data at the start or end of a function) and every data value",
  "the tests contain a few literal pools whose words do not look like branches",
  [M, TH], ("mapping-symbol map", "src/main.rs run(), `tags`"), ("skipping of data", "src/thumb.rs analyze(), Tag::Data"))
p("C05", "The stated local stack usage is the function's real frame size",
  "The local stack usage printed for a function equals the size recorded by the compiler, or, where the compiler recorded none, "
  "the bytes its machine code takes from the stack pointer; it is a question mark when that amount cannot be known.",
  "inputs programs", "every function with or without recorded size, every instruction that moves the stack pointer, every immediate and register list",
  "the unit tests check a few encodings of PUSH and SUB",
  [M, TH], ("stack-size lookup and adjustment", "src/main.rs run()"), ("stack-pointer modifiers", "src/thumb.rs analyze(), thumb_expand_imm()"))
p("C06", "The maximum is the local usage plus the worst callee",
  "The maximum of a function outside cycles is its local usage plus the largest maximum of its callees; it is marked exact "
  "exactly when its local usage and everything reachable from it are known, and is a lower bound otherwise.",
  "programs inputs", "every call graph shape and size, every assignment of known, unknown, zero and huge stack sizes",
  "the tests check the maximum of a few small graphs",
  [M], ("maximum over the condensed graph in reverse topological order", "src/main.rs run()"), ("arithmetic of exact values and bounds", "src/main.rs Max, max_of()"))
p("C07", "Recursion is reported as exactly the strongly connected components",
  "The cycles shown are exactly the maximal sets of functions that can reach one another (including a function that calls "
  "itself), and the maximum of a function in a cycle is exact only if all members are known to use no stack; otherwise it is a "
  "lower bound.",
  "programs inputs", "every call graph, including nested, overlapping, adjacent and indirect cycles",
  "one test contains a simple cycle",
  [M], ("strongly connected components", "src/main.rs run(), `cycles`, `sccs`"), ("clusters", "src/main.rs dot()"))
p("C08", "Indirect calls lead to exactly the functions of a compatible signature",
  "A call through a pointer is represented by a node for its signature that leads to every linked function whose signature is "
  "compatible, under any of its names, and to no function whose signature differs; functions of unknown signature are "
  "candidates for every such call.",
  "programs inputs", "every signature (arity, argument and return types, pointers, aggregates), every set of candidates and aliases",
  "the tests use three programs with a handful of signatures",
  [M, IR, TY], ("signature comparison", "src/ir.rs FnSig::loosely_equal(), src/ir/ty.rs Type::loosely_equal()"), ("indirect-call nodes", "src/main.rs run(), `indirects`"))
p("C09", "Uncertainty is never presented as certainty",
  "If a function may call something the tool cannot identify (an indirect branch in machine code, a pointer call that matches "
  "no known function, a function outside the program) then the graph shows an unknown callee for it, and neither it nor any "
  "function that reaches it has an exact maximum. Conversely no unknown callee is shown where every callee is known.",
  "programs inputs", "every combination of unknown callees and unknown frame sizes anywhere below a function",
  "the tests check that one kind of unknown callee exists in one program",
  [M, TH], ("unknown-callee nodes", "src/main.rs run()"), ("detection of indirect branches", "src/thumb.rs analyze()"))
p("C10", "Runtime-library calls made by the compiler are in the graph",
  "On targets other than Thumb, memory operations that the compiler turns into calls (copy, move, set, compare) lead to the "
  "linked runtime function of that name or one of its aliases; other intrinsics do not produce callees.",
  "programs inputs configurations", "every intrinsic form and size suffix, with the runtime function linked, aliased, undefined or absent",
  "the tests only cover Thumb programs here, or programs that link none of these",
  [M], ("intrinsic handling", "src/main.rs run(), Stmt::DirectCall"))
p("C11", "There is exactly one node per function in the linked program",
  "Every function in the final program has exactly one node, whatever number of names it has; functions that the linker dropped "
  "have none; distinct functions are never merged, even when they have the same name.",
  "programs inputs", "every symbol table: aliases, untyped and local symbols, duplicate names, zero-size symbols, several sections",
  "the tests look for the presence of a few nodes",
  [M], ("alias and address maps", "src/main.rs run(), `defined`, `addr2name`, `aliases`"))
p("C12", "A start point selects exactly what is reachable from it",
  "With a start point, given as the symbol or the readable name of a function or of any of its aliases, the output consists of "
  "exactly the nodes reachable from that function with the edges and figures they have in the unrestricted graph. A start "
  "point that does not exist or is ambiguous is reported as an error and restricts nothing.",
  "programs inputs", "every function name of every program, including generic instances, trait methods and names shared by several functions",
  "one test uses `main`",
  [M], ("start-point lookup and filtering", "src/main.rs run(), `start`"))
p("C13", "The compact report lists the same figures as the graph",
  "The compact format lists every function of the graph once with its local stack usage, in decreasing order of usage and with "
  "full readable names, and its header gives the largest maximum of the graph.",
  "programs inputs", "every program and start point",
  "no test uses the compact format",
  [M], ("top format", "src/main.rs run(), OutputFormat::Top"))
p("C14", "The graph output is always well-formed and names are faithful",
  "The graph output is syntactically valid DOT with one statement per node and edge, whatever characters names contain; labels "
  "show the demangled name, with only a trailing hash removed, when that is unambiguous.",
  "inputs programs", "every legal symbol name (mangled in the legacy or v0 scheme, with quotes, backslashes, non-ASCII characters, hash-like endings)",
  "the tests use a few plain names",
  [M], ("label escaping", "src/main.rs Escaper, dot()"), ("name shortening", "src/main.rs dehash(), run()"))
p("C15", "Wrapping the compiler does not change the build",
  "When the tool acts as the compiler wrapper it runs the real compiler exactly once with the arguments in the same order, "
  "added only what is needed to emit the analysed products for the relevant crates, and passes the exit status, standard "
  "output and standard error through; markers are reported only for the compiler runtime library that is linked.",
  "inputs configurations", "every compiler command line that cargo can produce, including response of failing and killed compilers",
  "the tests build a dozen crates and inspect none of the compiler command lines",
  [W], ("wrapper", "src/wrapper.rs wrapper()"), ("argument parser", "src/wrapper.rs RustcArgs::parse()"))
p("C16", "The build that is analysed is the build that was requested",
  "Target, features, profile-independent options, the chosen example or binary and the start point are handed to the build and "
  "to the analysis as given on the command line, a command-line target overriding the configured one, and an unsupported "
  "toolchain is refused unless the documented override is set.",
  "inputs configurations", "every command line, cargo configuration and environment",
  "the tests use two command lines",
  [M], ("argument handling and cargo invocation", "src/main.rs Args, run()"))
p("C17", "A failed analysis is never mistaken for a result",
  "When the build fails, or a build product is missing, truncated, unreadable or malformed, or the request itself cannot be carried out (no program or two, unknown options or values, a toolchain that is not supported), the tool ends with a non-zero status "
  "and prints no graph.",
  "fault_sequences crash_points inputs", "every single fault in the request, in the build and in each build product, at every point",
  "no test injects a fault",
  [M, IR], ("error propagation", "src/main.rs run(), main()"))
p("C18", "The graph describes the current program, not a stale or neighbouring one",
  "The analysis uses the products of the build it just requested, for the requested example or binary and target, whatever other "
  "or older products lie in the target directory, and repeating it after a change shows the change.",
  "histories configurations", "every history of edits, builds and analyses in one target directory, with similarly named programs",
  "every test starts from its own products and runs once",
  [M], ("selection of build products", "src/main.rs run(), `entries`, 'most recently modified'"))
p("C19", "Every call form of the compiler's IR is understood or refused loudly",
  "Each function of the IR contributes exactly the direct and indirect callees of its body, whatever linkage, attributes, "
  "operand bundles, metadata, argument forms and types the calls carry; a call that cannot be understood is refused with an "
  "error, never ignored.",
  "inputs programs", "every call-like statement LLVM 17 prints, in every function header and module layout",
  "the unit tests parse about fifty lines",
  [IR, DEF, ITEM, TY], ("IR parser", "src/ir.rs parse(), src/ir/define.rs stmt()"))
p("C20", "The analysis is deterministic",
  "The same build products give the same functions, edges, figures and unknowns on every run, independently of the order of "
  "symbols, sections and definitions in them and of the environment.",
  "inputs schedules configurations", "every program, every permutation of its symbol table and IR, every process environment",
  "each test runs the tool once",
  [M], ("ordered maps; graph construction order", "src/main.rs run()"))
p("C21", "No build product makes the tool corrupt memory, hang or print nonsense",
  "On any build products, valid or not, the tool ends in bounded time with a graph that is well-formed or with a loud refusal, "
  "without memory errors, arithmetic overflow, fatal signals or endless runs.",
  "inputs", "every byte sequence as program image, object file, library and IR",
  "the tests use only valid products",
  [M, TH, IR], ("bounds and error handling of all parsers", "src/main.rs run(); src/thumb.rs; src/ir.rs"))
p("C22", "Stack sizes of the program and the runtime library are combined correctly",
  "The recorded stack size of every function, whether it comes from the program or from the compiler's runtime library, is "
  "attributed to that function and to no other; where both define a name the one that is linked counts.",
  "programs inputs configurations", "every distribution of functions and size records over the program and the library's members",
  "the tests check the sizes of one or two functions",
  [M], ("reading of .stack_sizes", "src/main.rs run(), `stack_sizes`"))
p("C23", "The build's messages reach the user unaltered",
  "Everything the build prints for the user appears on standard error, once and in order, without the tool's internal lines; "
  "standard output carries only the result.",
  "inputs schedules", "every sequence of lines, including very long, empty, coloured, non-ASCII and unterminated ones",
  "no test looks at messages",
  [M, W], ("relaying of cargo's standard error", "src/main.rs run(), `stderr`"))

p("C24", "Every gap and assumption of the analysis is announced",
  "Each function of the program whose local stack usage or whose type is unknown, each function whose inline assembly is assumed not to "
  "use the stack, each function with an indirect call of unknown type in its machine code and each intrinsic assumed to be a few "
  "instructions is named in a warning on standard error, once; functions without such gaps are not.",
  "programs inputs", "every combination of known and unknown usage and type, assembly, intrinsics, aliases, targets",
  "the tests ignore standard error",
  [M], ("warnings", "src/main.rs run(), `warn!`"), )

p("C25", "Analysing a program changes nothing but its build products",
  "The tool itself, both as the command and as the compiler wrapper, creates, changes, renames and removes no file, whether the "
  "run succeeds or fails; it only refreshes the time stamp of source files of the package so that cargo builds it again. What is "
  "written is written by cargo and the compiler.",
  "histories inputs configurations", "every package layout, request and failure",
  "no test looks at the files after a run",
  [M, W], ("marking the package as changed", "src/main.rs run(), `set_file_times`"))

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
