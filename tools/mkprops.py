#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=None)))

OOM_WHY = ("No test makes an allocation fail: every test runs with an allocator that always succeeds, so none of the "
           "failure branches is ever executed.")

# ---------------------------------------------------------------- memory and failure
p("M01", "A failed allocation is never dereferenced or asserted away",
  "For every library operation and every allocation it makes directly or through any callee, if that allocation fails "
  "the operation does not read or write through the resulting null pointer and does not abort the process on an "
  "assertion about it. The failed result is tested before it is used, on every path.",
  ["fault_sequences", "inputs"],
  "every allocation site reachable from the libfsm/libre/adt/print entry points, every choice of which allocation fails, every path from there",
  OOM_WHY,
  ["src/adt/*.c", "src/libfsm/**/*.c", "src/libre/**/*.c", "src/print/*.c"],
  [("null test after f_malloc/f_calloc/f_realloc/malloc and after every function that can return their NULL", "all of src/libfsm, src/libre, src/adt")])

p("M02", "A failed allocation makes the public operation report failure",
  "When an allocation made during a public libfsm or libre call fails, and the call returns, it returns its documented "
  "failure value (a null pointer, -1, or false/0 for the boolean-style functions), never a value that means success or "
  "a truth about the automaton. Tests and comparisons (empty, equal, and so on) report the error rather than an answer.",
  ["fault_sequences", "inputs"],
  "every public entry point, every single failing allocation below it",
  OOM_WHY,
  ["src/libfsm/*.c", "src/libre/*.c", "src/adt/*.c"],
  [("return-value propagation in every caller of a fallible function", "all of src/libfsm, src/libre")])

p("M03", "Memory allocated by a library operation is never lost",
  "On every path through a library function, including every error path, each block of memory it allocates, or is given "
  "ownership of by a function it calls, is released, returned, or stored somewhere that outlives the call. No path drops "
  "the last pointer to a live block.",
  ["fault_sequences", "inputs"],
  "every function of the library and every path through it, in particular the exits taken when a later step fails",
  OOM_WHY + " Nor do the tests run under a leak checker.",
  ["src/adt/*.c", "src/libfsm/**/*.c", "src/libre/**/*.c"],
  [("goto error / cleanup chains", "src/libfsm/*.c, src/libre/*.c")])

p("M04", "No use after free and no double free on any path",
  "No library function reads, writes, passes on for use, or frees again a block of memory after it has been freed, on "
  "any path, including the clean-up after a failure half way through construction.",
  ["fault_sequences", "inputs"],
  "every function of the library and every path through it",
  OOM_WHY,
  ["src/adt/*.c", "src/libfsm/**/*.c", "src/libre/**/*.c"],
  [("order of release in clean-up code", "src/libfsm/fsm.c, src/libfsm/*.c")])

p("M05", "Memory goes back to the allocator it came from",
  "A block obtained through the caller-supplied allocator is only ever resized or released through the allocator "
  "interface, and a block obtained from the C library's malloc family is only ever resized or released by the C library; "
  "the two are never mixed.",
  ["configurations", "inputs"],
  "every allocation site and every release site in the library, for every caller-supplied struct fsm_alloc",
  "With the default allocator (the one all tests use) both families end in the same malloc/free, so mixing them is "
  "invisible; only a caller with a pool or instrumented allocator sees the corruption.",
  ["src/adt/alloc.c", "src/libfsm/**/*.c", "src/libre/**/*.c", "include/fsm/alloc.h"],
  [("f_malloc/f_calloc/f_realloc/f_free versus malloc/calloc/realloc/free", "src/adt/alloc.c")])

p("M06", "Destroying an object releases everything it owns",
  "Each destructor of the library (for automata, their state, edge, end-id, eager-output and capture metadata, regex "
  "syntax trees, compiled matchers, intermediate code, and the internal containers) releases every block the object "
  "owns. A field that is ever given a freshly allocated block is released by the destructor of its structure.",
  ["histories", "inputs"],
  "every structure type with owning fields, every field, every destructor",
  "Tests exit soon after freeing and are not run under a leak checker, so memory a destructor forgets is never noticed.",
  ["src/adt/*.c", "src/libfsm/fsm.c", "src/libfsm/*.c", "src/libre/ast.c", "src/libfsm/vm/*.c"],
  [("destructor bodies", "fsm_free, fsm_endid_free, fsm_capture_free, fsm_eager_output_free, ast_free, free_ir, dfavm_free_vm, idmap_free, ...")])

p("M07", "Operations that consume their operands do so on every path; no others do",
  "fsm_union(), fsm_concat(), fsm_intersect(), fsm_intersect_charset() and fsm_subtract() free each operand, or return it "
  "as the result, on every path, including every failure, so the caller never has to; fsm_move() frees its source. "
  "fsm_merge() takes over both automata when it succeeds and leaves both to the caller when it fails. fsm_free() and "
  "the other destructors release the object itself on every path, and no other public function frees an object it is given.",
  ["fault_sequences", "inputs"],
  "every pointer parameter of every exported function, on every path to a return",
  OOM_WHY + " A test cannot see whether an operand was freed unless it runs under a leak checker.",
  ["include/fsm/bool.h", "include/fsm/fsm.h", "src/libfsm/union.c", "src/libfsm/concat.c", "src/libfsm/intersect.c", "src/libfsm/subtract.c", "src/libfsm/charset.c", "src/libfsm/merge.c", "src/libfsm/fsm.c"],
  [("error labels that free the operands", "src/libfsm/union.c, concat.c, intersect.c, subtract.c")])

p("M08", "The empty set is a null pointer, and every set operation accepts it",
  "A state's edges and its epsilon transitions are null pointers when there are none. Every operation on a state set or an edge "
  "set (adding to, copying from or to, removing from, compacting, rebasing, replacing in, iterating over, comparing by "
  "equivalence class, freeing, querying) accepts the null pointer as the set without members: it neither reads through it nor asserts "
  "it away, and answers as for a set with no members (count 0, contains nothing, nothing next, no transition, no nondeterminism). "
  "The only exceptions ask for members by name, and are used only where there are some. So a state without edges is an ordinary state "
  "to every operation on automata.",
  ["inputs", "histories"],
  "every function given a set directly, through a pointer or by way of an iterator, on every path from its entry; every set read from memory and given to one, on every path from there",
  "The tests' automata have states without edges in the positions their authors thought of. Each of some forty operations meets a state without edges only in some histories: two of them did not accept it, and 749 tests had not noticed.",
  ["src/adt/edgeset.c", "src/adt/stateset.c", "include/adt/edgeset.h", "include/adt/stateset.h", "src/libfsm/*.c"],
  [("null tests at the head of each set operation, edge_set_empty(), state_set_empty()", "src/adt/edgeset.c, src/adt/stateset.c")],
  [("fsm_state.edges", "null when the state has no edges", "src/libfsm/internal.h"), ("fsm_state.epsilons", "null when it has no epsilon transitions; a tagged pointer when it has one", "src/libfsm/internal.h")])

p("M09", "Blocks are allocated large enough for what they are used to hold",
  "Every block the libraries and tools allocate for values of a type is at least as large as the number of them it is to hold times the "
  "size of that type; its length is never made from the size of a pointer to them or of some smaller type, and the capacity recorded "
  "beside a block is never more than the number of elements allocated. So storing up to the recorded capacity never writes past the block.",
  ["inputs", "histories"],
  "every allocation of a typed block, every capacity recorded beside one",
  "The C library rounds lengths up and neighbouring memory is often unused: a block too short goes unseen until a set reaches an unusual size.",
  ["src/adt/*.c", "src/libfsm/*.c", "src/libre/*.c", "src/lx/*.c"],
  [("f_malloc, f_calloc, f_realloc and their callers", "src/adt/alloc.c"), ("grow_* functions", "src/adt, src/libfsm")],
  [("edge_set.ceil, state_set.n, fsm.statealloc", "capacities", "src/adt/edgeset.c, src/adt/stateset.c, src/libfsm/internal.h")])

# ---------------------------------------------------------------- effects
p("R01", "Queries and matching do not modify the automaton or program they are given",
  "A public function that takes an automaton, regex syntax tree, option set or compiled matcher as a pointer to const "
  "never writes to that object or to anything reachable from it. So any number of threads may query, print, or match "
  "against one shared object at the same time.",
  ["schedules", "inputs", "histories"],
  "every public function with a pointer-to-const parameter, every store instruction it can reach",
  "A test observes results, not stores; a cached or scratch write that is undone before returning changes no "
  "single-threaded result and only fails under a concurrent schedule.",
  ["include/fsm/*.h", "include/re/*.h", "src/libfsm/**/*.c", "src/libre/**/*.c"],
  [("const-qualified parameters (shallow in C: fields reached through pointers are not const)", "include/fsm/*.h")])

p("R02", "The libraries keep no hidden mutable state",
  "libfsm and libre hold no writable data shared between calls: no function stores to a variable of static storage "
  "duration, and none calls a C library function that does so on its behalf. Operations on distinct objects are therefore "
  "independent, and may run concurrently.",
  ["schedules", "histories"],
  "every object of static storage duration in the libraries and every instruction that could write to it",
  "The test programs are single threaded and mostly perform one operation per process.",
  ["src/libfsm/**/*.c", "src/libre/**/*.c", "src/adt/*.c", "src/print/*.c"],
  [("no writable statics", "all library sources")])

p("R03", "Library code never ends the process",
  "No public libfsm or libre entry point can end the calling process by calling exit or a similar function on a "
  "condition that input, options or resource exhaustion can bring about; it reports such conditions through its return value. "
  "(Internal consistency assertions and their unreachable default branches are not meant here.)",
  ["inputs", "fault_sequences", "configurations"],
  "every call to a process-ending function reachable from a public entry point",
  "Tests use supported options and valid input with memory available, so the exits are never taken.",
  ["src/libfsm/**/*.c", "src/libre/**/*.c", "src/adt/*.c"],
  [("error returns", "all library sources")])

# ---------------------------------------------------------------- output
p("O01", "A failed write is reported by the function that wrote",
  "A public function that writes to a caller's stream and returns a status never returns success when the stream is in "
  "error because of its writes: the stream's error indicator is examined after the last write on every path that returns success.",
  ["fault_sequences", "inputs", "configurations"],
  "every public function that writes to a FILE, every path that returns success after writing",
  "The tests write to files and pipes which accept everything, so no write ever fails.",
  ["src/libfsm/print.c", "src/libfsm/print/*.c", "src/libre/print/*.c"],
  [("ferror() before success", "src/libfsm/print.c: fsm_print")])

p("O02", "Optional hooks are called only when present, and their failure is honoured",
  "Every callback of the printing hooks is optional: each one is called only on paths where that same callback has been "
  "found non-null. When a callback (or the default it replaces) reports an error, printing stops and the "
  "error is returned to the caller of the print function.",
  ["configurations", "inputs"],
  "every call through a hook field, for every combination of set and unset hooks and every callback result",
  "The tests use a handful of fixed hook combinations, whose callbacks never fail.",
  ["src/libfsm/print.c", "src/libfsm/print/*.c", "src/libre/print/*.c", "include/fsm/print.h"],
  [("print_hook_args/accept/reject/comment/conflict", "src/libfsm/print.c")])

p("O04", "Printing goes to the stream given, and nowhere else",
  "Library code that prints writes to the stream its caller gives it and to no other: nothing in the libraries writes to standard output on its own "
  "(the fsm_generate callbacks, which exist to print there, and debugging dumps with no log stream apart), and a function given a stream neither writes to another nor passes another on.",
  ["inputs", "configurations"],
  "every write call and every call that passes a stream on, in every function of the libraries",
  "The tests print to standard output, where a write to the wrong stream looks right.",
  ["src/libfsm/print/*.c", "src/libre/print/*.c", "src/print/*.c"],
  [("the stream is passed down", "src/libfsm/print.c: fsm_print")])

p("O03", "Every enumerated choice is handled wherever it is dispatched on",
  "Every dispatch on an enumerated type (regex node kinds, code generation strategies, VM opcodes, I/O modes, ambiguity "
  "modes, dialects, output languages, error codes) either handles every enumerator or has a default that rejects. No enumerator "
  "silently falls past a dispatch and leaves its result unset.",
  ["configurations", "inputs"],
  "every switch over an enumerated type in the libraries and tools, every enumerator",
  "Tests cover common combinations of options, languages and node kinds, not their product.",
  ["src/libfsm/print/*.c", "src/libre/*.c", "src/libfsm/vm/*.c", "src/re/main.c", "src/lx/**/*.c"],
  [("switch statements over enums", "all sources")])

# ---------------------------------------------------------------- tables
p("T01", "Unicode property classes are mutually consistent",
  "Each one-letter general category (C L M N P S Z) contains exactly the code points of its two-letter subcategories, "
  "the subcategories are pairwise disjoint, and the 'assigned' class is exactly their union less the supplementary private use "
  "planes. Script classes are pairwise disjoint, each script contains assigned code points only, and together the scripts cover "
  "every assigned code point other than surrogates and private use. Each class is the set that the Unicode data files "
  "shipped in share/ucd give for its name.",
  ["inputs"],
  "every code point 0..10FFFF against every Unicode class table",
  "The tests match only a few characters; 1.1 million code points times two hundred classes are out of reach.",
  ["src/libre/class/utf8_*.c"],
  [("range tables", "src/libre/class/utf8_*.c")])

p("T02", "Named character classes denote the standard sets; negations complement them",
  "Each ASCII-level named class (alnum, alpha, digit, space, word, xdigit and so on) denotes exactly the set of bytes "
  "given by POSIX or PCRE for that name, and each negated class denotes exactly the complement of its positive class. "
  "No class table has overlapping, inverted or out-of-range ranges, and its stored length equals the number of its ranges.",
  ["inputs"],
  "every class table, every member of its alphabet",
  "The tests try a few members of some classes.",
  ["src/libre/class/*.c"],
  [("range tables", "src/libre/class/*.c")])

p("T03", "Names resolve to the class, dialect, language or operation they name",
  "Looking up a class name gives the class of that name: the naming of class tables is one-to-one, and every dialect maps each "
  "bracket-class name and class escape to the class bearing that name. Likewise each name of a regex dialect, output language, "
  "I/O style, operator or query given to a tool selects the enumerator or function of that name, each dialect and output "
  "language is served by its own parser or printer, and flag letters set the flag they stand for. A search of such a table considers every "
  "entry, compares names exactly, and yields the item of the entry that matched.",
  ["inputs"],
  "every entry of every name table of the libraries and tools, every search loop over one",
  "Hundreds of entries, of which the tests use a few.",
  ["src/libre/class_name.c", "src/libre/class_lookup.c", "src/libre/dialect/*/*.c"],
  [("name tables", "src/libre/class_name.c, src/libre/class_lookup.c")])

# ---------------------------------------------------------------- misc structural
p("S01", "Assertions have no side effects",
  "Compiling the libraries and tools with assertions disabled changes nothing but the checks: no assertion's condition "
  "assigns, increments, performs I/O, keeps or releases memory, or calls a function that modifies anything.",
  ["configurations", "inputs"],
  "every assertion in the sources",
  "The tests are built with assertions enabled only.",
  ["src/**/*.c"], [("assert()", "all sources")])

p("S02", "State, end-id and edge identifiers are never silently truncated",
  "A value that identifies a state, end id or eager output id (or counts states) is never stored to or passed as a narrower type than its own "
  "without a preceding range check, so automata are correct up to the full range of their identifiers.",
  ["inputs"],
  "every conversion applied to an identifier value",
  "Truncation needs more states than any test builds (2^16 or 2^24 and beyond).",
  ["src/libfsm/internal.h", "src/adt/edgeset.c", "src/libfsm/**/*.c"],
  [("fsm_state_t, fsm_end_id_t, fsm_output_id_t", "include/fsm/fsm.h")])

p("S03", "Bytes above 0x7F are handled as unsigned",
  "Input, label and pattern bytes are treated as values 0..255 everywhere: no byte is used as an index, shift count, "
  "character-class argument or compared against a 0..255 value after being sign extended. The same holds in the C code "
  "that the printers and the lexer generator write.",
  ["inputs", "configurations"],
  "every use of a plain char value as an index, ctype argument or widened edge label",
  "The tests are mostly ASCII and run on one platform, whose char is signed.",
  ["src/libfsm/**/*.c", "src/libre/**/*.c", "src/print/*.c", "src/adt/*.c"],
  [("casts to unsigned char", "all sources")])

p("S04", "Every public declaration is implemented and exported",
  "Every function declared in an installed header is defined exactly once by the library it belongs to and listed for "
  "export, and every exported name is defined, so that a program written against the headers links.",
  ["programs"],
  "every function declaration in include/fsm and include/re, every line of the export lists",
  "Tests call part of the public interface only, and link internal symbols directly.",
  ["include/fsm/*.h", "include/re/*.h", "src/libfsm/libfsm.syms", "src/libre/libre.syms"],
  [("headers, export lists", "include/, *.syms")])

p("V01", "The matcher's bytecode writers and readers agree on instruction layout",
  "For each bytecode version, the interpreter (and the disassembler) extracts every instruction field from exactly the "
  "bit position and with exactly the width at which the encoder stored it, knows every opcode and comparison the encoder "
  "can emit, and gives them the same meaning. Every value written to a field fits it. A branch destination has the same size, byte order "
  "and sign on both sides, and is given a size it fits in. The length in a saved program is read from the bytes it was written to.",
  ["inputs", "programs"],
  "every field of every instruction format, every opcode, every comparison",
  "Long branches, indirect branches and some comparisons only arise for automata larger than any the tests compile.",
  ["src/libfsm/vm/v1.c", "src/libfsm/vm/v2.c", "src/libfsm/vm/vm.c"],
  [("encode_opasm_v1/v2, vm_match_v1/v2, running_print_op_v1/v2", "src/libfsm/vm")])

p("V02", "Each VM comparison is written as the operator that means it",
  "Wherever the comparison of a VM instruction is written out, as an operator of generated C, Go, Rust, awk, shell, LLVM or assembly "
  "code, in opcodes or in diagrams, each of the six comparisons is written as the operator with that meaning (the unsigned one, where a "
  "language has two), and where an optimisation inverts a comparison it uses the complement.",
  ["configurations", "programs"],
  "every output language that prints VM instructions, every comparison",
  "Most of these languages have no compiler here, so their output is not run; some comparisons arise only for large automata.",
  ["src/libfsm/print/*.c", "src/libfsm/vm/ir.c", "src/libfsm/vm.c"],
  [("cmp_operator and its like in each printer; eliminate_unnecessary_branches", "src/libfsm/print, src/libfsm/vm/ir.c")])

p("C01", "Command-line options declared are the options handled",
  "For each tool, every option letter accepted by its option string is handled by its option switch and the other way "
  "round; an option's argument is used only if the option is declared to take one, and taken if so.",
  ["configurations"],
  "every option of fsm, re, rx, retest, reperf, cvtpcre and lx",
  "The tests use some of the options.",
  ["src/fsm/main.c", "src/re/main.c", "src/rx/main.c", "src/retest/*.c", "src/lx/main.c"],
  [("getopt loops", "main() of each tool")])

p("C02", "lx's worker threads touch shared state only under its lock",
  "In lx, every access to mutable shared data from code run by worker threads happens with the mutex that guards it "
  "held, the mutex is released on every path out of each critical section, and never locked twice or released unheld.",
  ["schedules"],
  "every access to a global reachable from a thread entry function, every path",
  "A race or a lock left held shows up only under particular interleavings or on error paths.",
  ["src/lx/main.c"],
  [("zmtx", "src/lx/main.c")],
  [("cur_zone, zerror, zn", "work list, first error, progress counter", "src/lx/main.c")])

p("E01", "State metadata travels with its state",
  "Every operation that copies, renumbers, merges or removes states carries all per-state metadata with them: if it handles end "
  "ids it handles eager outputs and captures likewise, and no metadata stays behind under an old state number. The automaton's "
  "record of its start state is renumbered with the states.",
  ["inputs", "histories"],
  "every operation that renumbers or copies states, every kind of metadata",
  "Tests combine metadata with few operations, and mostly one kind at a time.",
  ["src/libfsm/clone.c", "src/libfsm/merge.c", "src/libfsm/consolidate.c", "src/libfsm/determinise.c", "src/libfsm/state.c", "src/libfsm/epsilons.c"],
  [("fsm_endid_carry, fsm_endid_compact, fsm_eager_output_compact, ...", "src/libfsm")])

p("E02", "The count of end states always equals the number of end states",
  "After every public operation, the automaton's recorded number of end states equals the number of states marked as end "
  "states: the mark and the count are only ever changed together.",
  ["histories", "inputs"],
  "every store to the end mark or to the count, on every path",
  "The count is only consulted by a few queries; a drift goes unseen by tests of other operations.",
  ["src/libfsm/end.c", "src/libfsm/state.c", "src/libfsm/*.c"],
  [("fsm_setend", "src/libfsm/end.c")])

p("E03", "Passes over states, edges and tables are complete",
  "An operation that goes over the states of an automaton, the groups of an edge set, the symbols, or the entries of a table visits every "
  "one: it begins at the first, ends after the last according to the count that goes with that collection, and what is left out for its own "
  "sake does not leave out those that follow it.",
  ["inputs", "histories"],
  "every loop over an array held by a structure, an array of fixed size, an iterator, a list, the symbols or the states by number",
  "What is skipped matters only for automata whose first, last or later elements carry what the pass is for.",
  ["src/libfsm/*.c", "src/libre/*.c", "src/adt/*.c", "src/lx/*.c"],
  [("edge_set_*, fsm_*, state_set_* loops", "src/adt, src/libfsm"), ("struct fsm: states, statecount", "src/libfsm/internal.h")])

# ---------------------------------------------------------------- functional guarantees (behaviour)
p("F01", "Operators compute the language they are named for",
  "union, concatenation, intersection, subtraction, complement, reversal and merge of automata accept exactly the strings given by the "
  "corresponding set operation on the operands' languages.",
  ["inputs"], "every pair of automata and every string", "Infinitely many automata and strings.",
  ["src/libfsm/union.c", "src/libfsm/concat.c", "src/libfsm/walk2.c", "src/libfsm/complement.c", "src/libfsm/reverse.c"],
  [("operator implementations", "src/libfsm")])
p("F02", "Determinise, minimise, trim and epsilon removal preserve the language",
  "These transformations leave the accepted language, the end ids and the outputs reported for each string unchanged, and produce "
  "respectively a DFA, a minimal DFA, a trimmed automaton and an automaton without epsilon edges.",
  ["inputs"], "every automaton and every string", "Infinitely many automata and strings.",
  ["src/libfsm/determinise.c", "src/libfsm/minimise.c", "src/libfsm/trim.c", "src/libfsm/epsilons.c"],
  [("algorithms", "src/libfsm")])
p("F03", "Generated code, the VM and direct execution agree",
  "For every automaton, each code generator's output, the bytecode matcher and direct execution accept the same strings with the same ids.",
  ["inputs", "programs"], "every automaton, output language and string", "Only sampled patterns are executed, in some languages.",
  ["src/libfsm/print/*.c", "src/libfsm/vm/*.c", "src/libfsm/exec.c"], [("code generators", "src/libfsm/print")])
p("F04", "Regex dialects have their documented meaning",
  "Parsing and compiling an expression in each dialect gives an automaton for exactly the language that dialect's documentation assigns it.",
  ["inputs"], "every expression and string", "Infinitely many expressions.",
  ["src/libre/dialect/**", "src/libre/ast_compile.c", "src/libre/ast_analysis.c"], [("parsers, compiler", "src/libre")])
p("F05", "Printing and re-parsing an automaton or expression is lossless",
  "The fsm format, and regex output in a dialect, parse back to an automaton or expression with the same language.",
  ["inputs"], "every automaton and expression", "Infinitely many.",
  ["src/libfsm/print/fsm.c", "src/libfsm/parser.c", "src/libre/print/pcre.c"], [("printer and parser", "src/libfsm, src/libre")])
p("F06", "Captures and eager outputs are reported at the right positions",
  "For a matching string, captures and eager outputs reported are those of the leftmost match semantics, after any sequence of transformations.",
  ["inputs", "histories"], "every automaton, string, and operation sequence", "Only sampled.",
  ["src/libfsm/capture.c", "src/libfsm/eager_output.c"], [("capture resolution", "src/libfsm")])
p("F07", "Analysis of an automaton gives true answers",
  "Shortest examples are shortest and accepted, generated strings are exactly the matching strings up to the length bound, required "
  "characters are exactly those every match needs, and equality and emptiness answers are correct.",
  ["inputs"], "every automaton", "Infinitely many.",
  ["src/libfsm/shortest.c", "src/libfsm/gen.c", "src/libfsm/detect_required.c", "src/libfsm/equal.c", "src/libfsm/empty.c"],
  [("algorithms", "src/libfsm")])
p("F08", "Operations terminate, and respect their step and state limits",
  "Every operation terminates on every input; those with configured limits stop at the limit with the documented result.",
  ["inputs", "configurations"], "every input and limit", "Only small inputs are tried.",
  ["src/libfsm/determinise.c", "src/libfsm/exec.c", "src/libfsm/gen.c", "src/libfsm/detect_required.c"], [("step counters", "src/libfsm")])
p("F09", "The internal containers implement their abstract types",
  "Sets, edge sets, maps, queues and priority queues behave as the mathematical set, map and queue for every sequence of operations.",
  ["histories"], "every sequence of operations", "Only sampled sequences.",
  ["src/adt/*.c"], [("containers", "src/adt")])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
