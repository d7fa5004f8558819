CLAIMS = {
 "T01": ("exact set algebra over constant initialisers read from the compiled sources",
         "Exact for every table and code point; trusts clang's constant evaluation and share/ucd's data files."),
 "T02": ("exact set algebra over constant initialisers read from the compiled sources",
         "Exact for every table and byte; the reference sets of POSIX and PCRE are written in the check."),
 "T03": ("name table extraction from the typed syntax tree; scalar evolution over search loops",
         "Exact for the pairs listed in tables and switches; a search loop the analysis cannot reduce to a closed form is counted as undecided, not alarmed on."),
 "R01": ("points-to (mod-ref) analysis over LLVM IR, per public function",
         "Sound for what the IR shows, given that callbacks behind function pointers of the caller do not write; flow-insensitive."),
 "R02": ("points-to (mod-ref) analysis over LLVM IR of every store; list of C library functions with hidden state",
         "A global reached only through a pointer kept in heap memory is not seen."),
 "R03": ("call-graph reachability and classification of the controlling branches of every process-ending call",
         "Exact for exit; for abort the kind of condition is read from the IR."),
 "M03": ("ownership analysis over LLVM IR: each new object followed along every path to where it is released, handed over or lost; each member overwritten, from where its old block was last seen; callees summarised per parameter",
         "Follows an object held in variables and in members of local or new objects; one stored in memory the function was given is taken to be kept. Loops and aliases the abstract states merge can hide a loss, not invent one."),
 "M04": ("ownership analysis over LLVM IR: each released object followed along every path to any later use, from every abstract state that reaches the release; pointers taken from a member before its block may be replaced; callees summarised per parameter",
         "Follows pointers in variables and in members the function reached them by; a stale pointer left in memory reached another way is not seen."),
 "M05": ("points-to analysis over LLVM IR: allocation families at every release",
         "Sound for pointers the analysis follows; a release whose pointer it cannot see has no obligation."),
 "M06": ("points-to and call-graph closure: blocks reachable from a destructor against blocks it may free; path-sensitive release of each member over LLVM IR; loops that release, by counter and ways out",
         "The members that must be released on every path are those that are today (spec/m06.json), each with the structure it is in; an array kept by a new structure has only the points-to obligation."),
 "S01": ("AST query over every assertion, comparison of the sources' effects with and without NDEBUG, mod-ref summaries of the functions called",
         "Exact for direct effects; a called function is pure if the points-to analysis shows no store to memory it did not allocate itself."),
 "S02": ("dataflow over SSA form: identifiers followed from their declared types to every narrowing conversion, with range analysis",
         "Exact for values held in variables, members of a declared type, parameters and results; an identifier kept in a member not declared as one is followed only where it is compared with one."),
 "S03": ("dataflow over SSA form: sign-extended bytes followed to every use that depends on the extended bits, with dominating range tests; syntax tree query for vacuous comparisons of plain char; lint of the C text the printers write",
         "Follows values through variables, calls and returns, not through memory wider than the byte (where it reports the store); a sign extension of a number of 8 bits (int8_t) is left aside."),
 "S04": ("comparison of header declarations, library symbol tables and export lists",
         "Exact for linkage; behaviour is not considered."),
 "V01": ("bit provenance (each bit of an integer traced to a constant or a bit of its source) over SSA form, from encoder to interpreter and disassembler",
         "Exact for the fields of the instruction word, for the sets of operations and comparisons told apart by tests or switches, and for the size, order and sign of destinations; that a destination names the right instruction is not decided."),
 "V02": ("dominating-branch analysis over SSA form: the comparison known where each operator string is chosen; lint of the generated interpreter's text",
         "Exact where the operator is chosen by tests or switches on the comparison; operators looked up in a table indexed by the comparison are not seen."),
 "C01": ("query over the typed syntax tree: option strings against the cases of the switch on getopt's result, and uses of optarg",
         "Exact where the option string is a literal, as it is in every tool."),
 "M07": ("ownership analysis over LLVM IR: what becomes of each pointer argument of each exported function on every path to a return",
         "Exact on the operands listed unless a path hands one to code the analysis cannot follow (counted undecided); automata passed in arrays (fsm_union_array()) are not followed."),
 "M08": ("path-sensitive null-value analysis over LLVM IR, interprocedural: every set operation from its entry with the set null, and every load of a set with its value null",
         "Exact but for entries with too many paths (none today) and loads with too many (13 of 138, followed from their dominating branches only); what a static helper asks of its argument is judged where it is called."),
 "M09": ("type query over the syntax tree (type a block is used as against the types its length is made from) and linear value comparison over LLVM IR (capacity recorded against length allocated)",
         "Decides the element size and the recorded capacity, not that every index stays below the capacity; lengths made in another function are counted undecided. Products are taken not to overflow."),
 "E01": ("path-sensitive dataflow over LLVM IR: from each event that makes or moves a state to every successful return, past a carrier of each kind of metadata; field-by-field move and initialiser queries over the syntax tree",
         "Decides that metadata is carried and renumbered on every path, not that each id value arrives; the operations and carriers are listed in the check, and a listed one that disappears is an error."),
 "M01": ("interprocedural failure propagation over LLVM IR: from every call that can fail, abstract values along every path to a dereference, call or assertion",
         "Follows a failure through variables, fields, array elements, flags in memory and callbacks; not through memory reached by a pointer the caller did not hold. Each failure is followed alone."),
 "M02": ("interprocedural failure propagation over LLVM IR: from every call that can fail, abstract values along every path to each return",
         "Exact on returns the abstract values determine; returns that depend on memory a failed function may have written are counted undecided, not alarmed on."),
 "O01": ("interprocedural failure propagation over LLVM IR: every stream write as the one that fails, with ferror() true from then on, to the returns of the public printers",
         "Follows the failure through the printers and the variables they are chosen into; what a caller's own callback writes is the caller's. An output language added to a table in memory would not be followed."),
 "O02": ("interprocedural failure propagation over LLVM IR from every printing callback; reachability of each call with its member null",
         "Callbacks are recognised by struct fsm_hooks and by the type of the parameter."),
 "O04": ("def-use tracing over LLVM IR of the stream argument of every writing call",
         "A stream kept in memory is taken to be the caller's."),
 "E03": ("loop analysis over LLVM IR of every translation unit: counter, bound, ways out and what they depend on",
         "Loops whose counter is kept in memory, run downwards or step through a hash table by probing are outside it; a way out that depends on a call that may fail, or on what is used afterwards, is taken to be meant."),
 "E02": ("event pairing along the paths of clang's control flow graph: marks, counts and state moves",
         "Writes through an alias of another type, or in assembler, are not seen; loops are followed at most twice."),
 "C02": ("lockset dataflow over LLVM IR in every calling context, from the thread entry functions",
         "Shared objects are those of static storage that thread code writes, and what their pointers reach directly; objects handed over through the work list are taken to belong to one thread."),
 "O03": ("exhaustiveness of every enumerated switch and table, over the typed syntax tree",
         "Exact for missing cases without a default; where a default exists, the members left to it are compared with a reviewed table."),
}
NA = {
 "F01": "an equality of languages of automata built at run time: for all operands and strings. The operators are products and rewirings whose correctness is an invariant over unbounded graphs; deciding it is theorem proving about the algorithm, not a dataflow, typestate or query fact. Its structural part is claimed apart: state metadata (E01), end count (E02), complete passes (E03), reported failures (M02).",
 "F02": "language equality of input and output of subset construction and partition refinement, and minimality of a result: invariants over sets of sets of states built at run time, which no dataflow domain in reach expresses. Structural part: E01, E02, E03, M02.",
 "F03": "equivalence of programs printed in a dozen languages with two interpreters, for every automaton; the text printed is a value of format strings and run-time data. Structural part: dispatch (O03), streams and failures (O01, O02, O04), metadata given to hooks (E01).",
 "F04": "the language of every expression against prose documentation; the parsers are generated and the meaning is built at run time. Structural part: name tables and classes (T01-T03), dispatch (O03), bytes (S03).",
 "F05": "a round trip through two run-time transformations, for every automaton. Structural part: end ids given to the printers (E01), failed writes (O01), bytes printed (S03).",
 "F06": "positions depend on the string and on the history of the automaton. Structural part: that metadata is carried and renumbered by each operation (E01).",
 "F07": "optimality and exactness of searches over run-time graphs. Structural part: failure answers are not confused with results (M02), complete passes (E03).",
 "F08": "termination of worklist and fixpoint algorithms rests on monotone growth of run-time sets; limits are run-time quantities. A termination prover's ranking argument over these data structures is out of reach of the analyses here.",
 "F09": "behavioural equivalence of hash tables, sorted arrays and heaps with sets and maps over all histories needs data-structure invariants (sortedness, probe chains) that are proved, not read off. Structural part: stale and lost blocks (M03, M04), complete passes over their arrays (E03)."
}
