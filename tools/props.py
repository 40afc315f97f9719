prop("C01", "IDE solver returns exactly the join over all valid paths",
     """For every IDE problem with distributive flow and edge functions, the value the solver reports for a fact at a statement equals the
     join, over all realizable (call/return-matched) paths from the seeds to that statement, of the seed value transformed along the path, and
     a fact is reported iff such a path exists. The answer does not depend on how edge functions are stored (inline, heap, cached), on
     whether the zero fact is added automatically, on edge recording or persisted summaries, nor on which accessor reads the result.""",
     ["programs", "inputs", "configurations"],
     """All supergraphs (branches, loops, calls, recursion, several callees/exits/return sites, library summaries, seeds in several functions)
     and all distributive problems over them; explored: 17 shapes x every choice of a flow relation per edge over 3 facts and a 5-value lattice.""",
     "The unit tests compare a few dozen hand-written C programs with a handful of expected facts each; the property ranges over every exploded super-graph.",
     [I + "DataFlow/IfdsIde/Solver/IDESolver.h", I + "DataFlow/IfdsIde/Solver/JumpFunctions.h", I + "DataFlow/IfdsIde/FlowFunctions.h",
      I + "DataFlow/IfdsIde/EdgeFunction.h", I + "DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h", I + "DataFlow/IfdsIde/SolverResults.h"],
     [("tabulation of jump functions, summaries and incoming sets, then value propagation", I + "DataFlow/IfdsIde/Solver/IDESolver.h")],
     "exhaustive enumeration of small exploded super-graph problems on the real solver against explicit pushdown-model exploration",
     """The real IDESolver runs on every problem of a bounded space; the oracle is an explicit-state pushdown exploration cross-checked with an
     independent summary fixpoint; every case is a model trace replayed against the implementation.""")

prop("C02", "IFDS solver returns exactly the facts reachable along valid paths",
     """For every IFDS problem with distributive flow functions, a fact is reported to hold at a statement iff it is reachable there along a
     realizable (call/return-matched) path from the seeds. All result accessors agree on that set.""",
     ["programs", "inputs", "configurations"],
     """All supergraphs and all flow relations over them; explored: 17 shapes x every choice of a flow relation per edge over 3 facts.""",
     "Tests check single programs; mismatched returns, missing re-use of summaries or order effects only show on particular graphs.",
     [I + "DataFlow/IfdsIde/Solver/IDESolver.h", I + "DataFlow/IfdsIde/Solver/IFDSSolver.h", I + "DataFlow/IfdsIde/SolverResults.h", I + "DataFlow/IfdsIde/IFDSTabulationProblem.h"],
     [("IDE tabulation with the binary lattice", I + "DataFlow/IfdsIde/Solver/IFDSSolver.h")],
     "exhaustive enumeration of small exploded super-graph problems on the real solver against explicit pushdown-model exploration",
     """As C01, with the binary lattice: reachability in the pushdown model decides every fact.""")

prop("C03", "Interrupting, resuming or stepping the solver never changes the result",
     """Wherever solving is cancelled (predicate, timeout or asynchronous flag, once or repeatedly) and then continued through any of the
     continuation entry points, and however it is split into single steps or chunks, the final result equals that of an uninterrupted run. A
     cancellation that is requested before the fixpoint yields no result and takes effect after at most the step in progress (asynchronous flag)
     or at the next poll (predicate, timeout); an uncancelled call makes progress and ends for every polling interval, including zero,
     with the result.""",
     ["schedules", "programs", "configurations"],
     """Every program point at which a cancellation can be observed, every sequence of interruptions, all polling intervals, timeouts and clock
     behaviours; explored on all problems of 17 shapes with 2 relations per edge.""",
     "The tests interrupt one program once, before it starts or at a wall-clock-dependent moment.",
     [I + "DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h", I + "DataFlow/IfdsIde/Solver/IDESolver.h"],
     [("initialize/next/finalize protocol and the polling loops built on it", I + "DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h")],
     "exhaustive enumeration of interruption points and polling/clock behaviours on the real solver",
     """All interleavings of a canceller with the solver at the granularity of problem queries, all predicate answer patterns (3 polls) and a
     virtual clock; every run ends in a comparison with the exhaustive reference result.""")

prop("C04", "Edge functions obey the algebra the IDE solver relies on",
     """For all edge functions of the shipped templates (identity, all-top, all-bottom, constant, composer, join edge function, and user edge
     functions built on the default join/compose): composition applies the first and then the second; the join is a sound upper bound of both
     (exact, or the all-bottom function), all-top is neutral, all-bottom absorbing, the join is idempotent and repeated joining stabilises; a constant result is
     reported as constant with the right value; a JoinEdgeFunction<L,N> keeps up to N functions exactly; the lattices' join and order agree;
     equality, hashing, ordering and casts of edge functions are consistent. Handles to edge functions never free them early, leak them or read freed memory,
     whatever the sequence of copies, moves, assignments and caching; equal cacheable edge functions share one instance.""",
     ["programs", "inputs", "histories"],
     "All compositions and joins over all values, all histories of handles; explored: all terms up to depth 2-3 over five lattices, all histories up to 5 operations.",
     "Unit tests exercise a handful of compositions; algebraic laws quantify over all pairs and values.",
     [I + "DataFlow/IfdsIde/EdgeFunction.h", I + "DataFlow/IfdsIde/EdgeFunctionUtils.h", I + "DataFlow/IfdsIde/EdgeFunctionSingletonCache.h", I + "Domain/LatticeDomain.h", I + "Domain/BinaryDomain.h", I + "Utils/JoinLattice.h"],
     [("type-erased edge functions and their storage", I + "DataFlow/IfdsIde/EdgeFunction.h"), ("join and composition templates", I + "DataFlow/IfdsIde/EdgeFunctionUtils.h")],
     "exhaustive enumeration of edge-function terms and handle histories on the real code",
     """All terms up to a depth are built through the real joinWith/composeWith and evaluated on every lattice value against direct function
     composition/join; all operation sequences on handles are executed under AddressSanitizer with an instance-counting edge function.""")

prop("C05", "Flow-function templates compute exactly the documented fact relation",
     """Every flow-function template (identity, lambda, generate, generate-if, generate-many, kill, kill-if, kill-many, kill-all, generate-and-kill-others,
     transfer, union, compose, and their deprecated class forms, and the zero-preserving wrapper) maps each incoming fact to exactly the set of
     facts its documentation states, for all parameters, fact types and container types, however often and in whatever order it is evaluated. The LLVM
     call, return, call-to-return and strong-update templates map facts between actuals and formals (also repeated actuals, struct-return parameters,
     variadic arguments, globals, the zero fact, returned values) exactly as documented, for every combination of flags and predicates.""",
     ["inputs", "programs", "histories"],
     "All parameters, facts and call sites; explored: 4 facts, terms of two templates, call sites of up to 2+2 actuals over 4 values.",
     "Tests look at a few templates with one parameter choice.",
     [I + "DataFlow/IfdsIde/FlowFunctions.h", I + "PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"],
     [("flow function templates", I + "DataFlow/IfdsIde/FlowFunctions.h"), ("LLVM mapping templates", I + "PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h")],
     "exhaustive enumeration of template instances, call sites and evaluation histories on the real code",
     "Each enumerated instance of the real template is compared with the documented relation for every fact after every evaluation history.")

prop("C06", "BitVectorSet behaves as a mathematical set",
     """For every history of insertions, erasures, unions, intersections, differences, copies, moves and clears on any number of BitVectorSets of one element
     type, interleaved in any way, size, membership, inclusion, iteration (each element exactly once, also while other sets are being filled), iterator movement, equality, ordering, hashing and
     printing are those of the mathematical sets: they depend on the contents only, not on the history or on what other sets contain.""",
     ["histories", "inputs"],
     "All histories on all sets; explored: all histories of 3 (thorough: 5) operations on two sets with registries of 0..131 elements (word boundaries).",
     "The element registry is global, so results may depend on what other sets did before; unit tests use fresh values in one order.",
     [I + "Utils/BitVectorSet.h"],
     [("bit vector over a global element registry", I + "Utils/BitVectorSet.h")],
     "exhaustive enumeration of operation histories on the real container against std::set",
     "Every bounded history is executed on the real sets (forking wherever the global registry changes) and compared after every step.")

prop("C07", "Containers and owning pointers behave as their models, memory-safely",
     """For every history of operations, StableVector behaves as a sequence whose elements never move and are destroyed exactly once, Table as a map from row/column pairs to
     values (all views agree), EquivalenceClassMap as a partition of the keys by value, and MaybeUniquePtr as a pointer that deletes its object exactly once iff it owns it; none reads or writes freed or
     uninitialised memory or leaks.""",
     ["histories"],
     "All histories; explored: all histories of 4-5 operations, with bulk operations that cross the block boundaries of StableVector.",
     "Growing, shrinking, clearing and reusing interact; tests run a few straight-line histories.",
     [I + "Utils/StableVector.h", I + "Utils/Table.h", I + "Utils/EquivalenceClassMap.h", I + "Utils/MaybeUniquePtr.h"],
     [("block bookkeeping of the stable vector", I + "Utils/StableVector.h"), ("ownership bit", I + "Utils/MaybeUniquePtr.h")],
     "exhaustive enumeration of operation histories on the real containers against reference models",
     "Every bounded history is executed on the real code under AddressSanitizer/UBSan with instance-counting, self-address-checking elements.")

prop("C08", "Graph structures and DFA minimisation preserve the graph",
     """Adjacency lists reflect exactly the nodes, edges, roots and tags added and not removed; reversing a graph reverses every edge and makes the sinks roots. Minimising a graph only
     merges nodes with the same label whose successors are pairwise equivalent, merges all such nodes of acyclic graphs with at most two successors per node, and the quotient graph has exactly the classes reachable from the
     roots, with their labels, edges and roots, so that the labelled paths from the roots are preserved.""",
     ["programs", "histories"],
     "All graphs; explored: all labelled DAGs with 4 (thorough 5) nodes, all cyclic graphs with 3 (4) nodes, all histories of 5 operations.",
     "Merging decisions depend on global structure; the tests use a handful of graphs from real analyses.",
     [I + "Utils/AdjacencyList.h", I + "Utils/GraphTraits.h", I + "Utils/DFAMinimizer.h"],
     [("partition of nodes and quotient construction", I + "Utils/DFAMinimizer.h")],
     "exhaustive enumeration of graphs and histories on the real code against partition refinement",
     "All bounded graphs are minimised by the real code and compared with the coarsest bisimulation and an isomorphism check of the quotient.")

prop("C09", "Monotone solver computes the maximal fixed point; call strings are k-limited",
     """For every intraprocedural monotone problem (any control-flow graph, monotone transfer functions, union or intersection merge, seeds at the entry), the intraprocedural monotone
     solver ends and reports at every statement the transfer function applied to the maximal-fixed-point solution, for all functions named as entry points. A call-string
     context with limit K holds exactly the last K pushed and not popped call sites for every history of pushes and pops; equality, ordering, hashing and printing depend on that sequence only.""",
     ["programs", "inputs", "histories"],
     "All graphs and transfer functions; explored: all graphs up to 3 nodes x all monotone functions on two facts, all graphs with 4 nodes x 6 functions per node.",
     "Worklist order and merging at join points only matter on particular graph shapes; tests run two analyses on a few programs.",
     [I + "DataFlow/Mono/Solver/IntraMonoSolver.h", I + "DataFlow/Mono/IntraMonoProblem.h", I + "DataFlow/Mono/Contexts/CallStringCTX.h"],
     [("worklist iteration with merging on the fly", I + "DataFlow/Mono/Solver/IntraMonoSolver.h"), ("k-limited call strings", I + "DataFlow/Mono/Contexts/CallStringCTX.h")],
     "exhaustive enumeration of small monotone problems on the real solver against explicit path exploration and round-robin fixpoints",
     "Each enumerated problem is solved by the real solver and compared with the fixed point and, for distributive functions, with the exploration of all paths.")

prop("C10", "Instruction and value ids are unique, dense and stable",
     """In a project database, global variables and then instructions have the dense ids 0,1,2,... in module order; id lookup, instruction lookup, iteration over all instructions and the metadata ids are
     inverse to each other for every module, however the database was made and also after functions were inserted; ids (including those of function arguments, for any function name) lead back to their value, and ids that
     belong to nothing lead to null. Lookups of functions, definitions and globals agree with the module. Invalid input yields an invalid database. Emitted IR is parseable and shows the ids.""",
     ["programs", "histories", "inputs"],
     "All modules; explored: all modules with up to 2 (3) functions and 2 globals, 5 construction modes, up to 2 insertions.",
     "Everything persisted or compared across runs is keyed by these ids; there is no unit test for the database.",
     [I + "PhasarLLVM/DB/LLVMProjectIRDB.h", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp"],
     [("id assignment and lookup", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp")],
     "exhaustive enumeration of modules and insertion histories on the real database against a reference numbering",
     "Every bounded module is loaded by the real code and all ids and lookups are compared after every step of the history.")

prop("C11", "Control-flow graphs are faithful to the IR, forward and backward",
     """For every function, the control-flow graph's successors, predecessors, edge list, start and exit points and the corresponding predicates (start, exit, branch target, fall-through,
     call site, field access) describe exactly the control flow of the IR, with debug intrinsics either present or transparent; successors and predecessors are inverse (apart from the documented
     skipping of the already-initialised branch of lazily initialised statics). The backward graph is the same graph with all edges, start and exit points swapped, with at most one artificial
     return per defined function. Constructors, destructors and assignment operators are recognised by their mangled names.""",
     ["programs", "configurations"],
     "All functions; explored: all functions with up to 3 blocks, 9 block contents, 7 kinds of terminators (and invoke/resume shapes with 4 blocks), in both views.",
     "Debug intrinsics, duplicate targets, switch/invoke terminators, unreachable blocks and backward views combine; tests check single instructions of a few files.",
     [I + "PhasarLLVM/ControlFlow/LLVMBasedCFG.h", "lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp", "lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp", I + "ControlFlow/CFGBase.h"],
     [("successor and predecessor computation", "lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp"), ("backward view", "lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp")],
     "exhaustive enumeration of small functions on the real CFG classes against the generated program's graph",
     "Every bounded function is generated with its explicit graph; all queries of the real classes are compared with it for all instructions and pairs.")

prop("C12", "Call graphs cover every executed call and are self-consistent",
     """For every program, the call graph computed by each resolver (CHA, RTA, OTF) from the given entry points contains every call (caller instruction, callee) that any execution of the program performs, through
     function pointers in variables, tables, fields, parameters, returned values, phis, and virtual calls on objects however allocated or overridden; direct calls have exactly their callee, virtual calls
     exactly the overriders of the subtypes (CHA) or of instantiated subtypes (RTA), and no call has callees it cannot call; without resolution indirect calls have no callee. Callers and callees are inverse, exactly the functions reachable from the
     entry points are in the graph, call sites and return sites agree with the IR, the backward ICFG has the same calls, copies are independent, and writing and reading a graph preserves it.""",
     ["programs", "configurations"],
     "All programs; explored: all direct-call programs with 3 functions, all flows of a function pointer with up to 2 (3) hops from 6 sources, all single-inheritance hierarchies with up to 3 (4) classes.",
     "A missed edge silently makes every interprocedural analysis unsound; tests check single programs for the expected callees.",
     [I + "PhasarLLVM/ControlFlow/LLVMBasedICFG.h", "lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp", "lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp", "lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp", "lib/PhasarLLVM/ControlFlow/Resolver/CHAResolver.cpp", "lib/PhasarLLVM/ControlFlow/Resolver/OTFResolver.cpp", I + "ControlFlow/CallGraph.h", "lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp"],
     [("call-graph construction to a fixed point", "lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp"), ("resolution of indirect calls", "lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp")],
     "explicit-state execution of all bounded programs (every path) as the oracle for the call graphs of the real resolvers",
     "Every bounded program is executed on all its paths by an explicit-state executor of LLVM IR; every executed call has to be in the graphs built by the real code; structure is compared with the IR.")

prop("C13", "Type hierarchies and vtables reflect the class hierarchy of the program",
     """For every class hierarchy, the LLVM-IR based and the debug-info based type hierarchy contain exactly the types of the program; X is reported as a subtype of Y exactly if it is Y or derives from Y, directly or
     transitively, through any number of bases in any order; subtypes, subtype queries, names and lookups agree with each other; every vtable lists exactly the functions of its slots in order (null for pure
     or unknown entries). Writing a hierarchy and reading it back gives an equal hierarchy, also for types that share a name or have none.""",
     ["programs"],
     "All class hierarchies; explored: all with up to 3 classes (4 with one method choice), up to two bases each, all method declarations, three naming schemes.",
     "Transitive closure, vtable slots and name matching depend on the shape of the hierarchy and on mangling; tests use a few fixed hierarchies.",
     [I + "PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h", "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp", "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp", "lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp", "lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp"],
     [("type infos to subtypes", "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp"), ("debug info to subtypes", "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp")],
     "exhaustive enumeration of class hierarchies on the real code against the generated hierarchy",
     "Every bounded hierarchy is generated as IR and as debug info with its subtype relation and vtables; all queries of the real classes are compared with it, before and after serialization.")

prop("C14", "Alias sets cover every possible overlap and form a partition",
     """For every function and every execution, two pointers of the function (including the globals it mentions) that hold overlapping addresses at the same time are reported as possible aliases by the alias sets,
     for each underlying alias analysis, eager or lazy, whatever is asked first; the object a pointer was allocated at is among its reachable allocation sites. Aliasing is an equivalence relation, a pointer
     belongs to its own set, and sets, alias queries and allocation-site queries agree; functions without globals get exactly the closure of LLVM's answers. Introduced aliases hold and join
     sets; merging two alias infos gives the union of what both know; writing and reading preserves all aliases. No other operation adds or loses aliases.""",
     ["programs", "histories"],
     "All functions and operation histories; explored: all programs with up to 2 (3) of 15 kinds of statements, all histories of 3 (4) operations on two objects.",
     "Aliases depend on how pointers flow through cells, branches and calls and on the order in which sets are merged; tests look at sets of a few programs.",
     [I + "PhasarLLVM/Pointer/LLVMAliasSet.h", "lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp", "lib/PhasarLLVM/Pointer/LLVMBasedAliasAnalysis.cpp", "lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp", I + "Pointer/AliasSetOwner.h"],
     [("merging of sets", "lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp"), ("ownership of merged sets", I + "Pointer/AliasSetOwner.h")],
     "explicit-state execution of all bounded programs as the oracle for the real alias sets; exhaustive operation histories against a partition model",
     "Every bounded program is executed on all its paths; every overlap seen in any state must be reported by the real code. Histories on the real objects are compared with a union-find model.")
prop("C15", "Linear constant analysis reports only true constants, and all linear ones",
     """Whenever the linear constant analysis reports an integer constant for a variable, parameter or register before an instruction, every execution that reaches the instruction has exactly that value
     there - for arithmetic of any width (wrapping, unsigned, saturating, with overflow flags), branches, loops, calls, recursion, parameters by value and by reference, globals, type-punned accesses
     and values the analysis does not model. Every executed instruction is reached. For programs whose operations are linear (invertible, with one variable operand), the result is also exact: a variable
     that has the same value on all paths is reported as that constant. The same holds right after each instruction that produces a value, for the results in SSA form, also in programs with debug information.""",
     ["programs"],
     "All programs without aliasing; explored: all programs with up to 2 statements of 74 kinds in 10 control-flow shapes, every execution.",
     "Constants meet at joins after different paths; the interplay of kinds of values, missing facts and joins shows only for particular combinations of statements.",
     [I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp", I + "Domain/LatticeDomain.h", I + "PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h"],
     [("flow and edge functions of the analysis", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp")],
     "explicit-state execution of all bounded programs as the oracle for the real analysis on the real solver",
     "All bounded programs are executed on all paths; the values seen before each instruction are compared with the solver's result in both directions.")

prop("C16", "Uninitialized-variables analysis finds all uninitialized values and uses",
     """Whenever some execution reaches an instruction while a scalar variable, global, parameter or register holds an uninitialized value (it was never written, or was written or computed from an
     uninitialized or undef value), the uninitialized-variables analysis reports that variable before that instruction, and getAllUndefUses lists every instruction that uses such a value directly
     - through branches, loops, calls, recursion, indirect calls, varargs, globals, out-parameters, returned and passed undef. For programs that only use scalar variables directly, the result is exact:
     a variable initialized on all paths is not reported, and no use is listed that uses only initialized values.""",
     ["programs"],
     "All programs without pointer aliasing; explored: all programs with up to 2 statements of 43 kinds in 10 control-flow shapes, every execution.",
     "An uninitialized value meets kills at joins, calls and loops; a fact lost on one path through a callee shows only for particular combinations.",
     [I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.h", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp"],
     [("flow functions of the analysis", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp")],
     "explicit-state execution of all bounded programs as the oracle for the real analysis on the real solver",
     "All bounded programs are executed on all paths; the values that are uninitialized before each instruction are compared with the solver's result, in both directions for programs on scalars.")

prop("C17", "Taint analysis finds every leak from source to sink",
     """Whenever some execution passes a value from a source (a source function's result or out-parameter) to a sink parameter - copied through variables, globals, parameters by value and by reference,
     results, struct fields, arrays, pointers to variables, memcpy and struct assignments, casts, phi, select and freeze, branches, loops, recursion, varargs and indirect calls - without being overwritten or
     sanitized, the taint analysis lists the sink call and that argument in its leaks, no matter whether the configuration names functions or uses callbacks. For programs whose
     variables are not aliased, the leaks are also exact: overwritten or sanitized variables and variables never tainted on any path are not reported.""",
     ["programs"],
     "All programs; explored: all programs with up to 2 statements of 56 kinds in 10 control-flow shapes, every execution, two kinds of configuration.",
     "A taint disappears where one flow function on its way kills it; whether that happens depends on the combination of copies, uses and calls.",
     [I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp", I + "PhasarLLVM/TaintConfig/TaintConfigUtilities.h",
      "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp", I + "PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"],
     [("flow functions of the analysis", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp"), ("sources, sinks and sanitizers", "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp")],
     "explicit-state execution of all bounded programs with marked values as the oracle for the real analysis on the real solver",
     "All bounded programs are executed on all paths with taint marks; the leaks seen are compared with the reported ones, in both directions for programs without aliases.")

prop("C18", "Typestate analysis reports the actual state of every file handle, or unknown",
     """Whenever an execution reaches an instruction, the typestate analysis for C file handles reports for every handle variable, handle parameter and handle passed to a call either the state that the
     file really has in that execution (uninitialized, opened, closed, error) according to the file API's state machine, or bottom (unknown) - through all API functions and their handle positions, branches,
     loops, calls that open, use or close a file directly or through local variables, recursion, varargs and handles returned from calls. In straight-line code the state is exact.""",
     ["programs"],
     "All programs in which different variables hold different files; explored: all programs with up to 2 (thorough 3) statements of 22 kinds in 10 control-flow shapes, every execution.",
     "States are composed along calls and joined at merges; a wrong composition shows only for particular sequences of API calls and calls around them.",
     [I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp",
      "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp"],
     [("edge functions of the analysis", I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"), ("state machine", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp")],
     "explicit-state execution of all bounded programs with file states as the oracle for the real analysis on the real solver",
     "All bounded programs are executed on all paths; the states of the files seen before each instruction are compared with the solver's result.")

prop("C19", "Path-sensitivity reports exactly the feasible paths of a data-flow fact",
     """For a fact at an instruction, the path-sensitivity manager returns paths through the program along which the fact really is generated and propagated by the analysis' flow functions
     (intra- and inter-procedurally, returning to the caller), each once, with every step that changes the fact on it; the conditions of the branches taken along each path, together with an additional
     constraint given by the user, are satisfiable, and the model that is returned satisfies them and leads along that path. No feasible path is missing when the exploded supergraph
     is acyclic or the program has no branches, whether or not the graph of paths is minimised. A limit of the number of paths only leaves out paths; a limit of the depth of the graph only leaves
     out the beginnings of paths.""",
     ["programs"],
     "All programs, facts and end points; explored: all programs of 18 families of fact-moving statements, calls, branches and loops with 28 kinds of branch conditions.",
     "Paths are cut, merged and shared by equal suffixes in a graph; whether one is lost, doubled or gets the negated condition depends on the combination of flows and branches.",
     ["include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h", "include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h", "include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerBase.h",
      "include/phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h", "include/phasar/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitvityManager.h",
      "lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp", "lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp"],
     [("graph of paths", "include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h"), ("conditions", "lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp"),
      ("recorded flows", "include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h")],
     "explicit-state enumeration of all paths of the exploded supergraph of all bounded programs, with conditions decided by trying all small values, compared with the real manager's paths",
     "All paths of all bounded programs are enumerated by a direct search and decided by evaluation; the paths and models that the code returns are compared with them in both directions.")

prop("C20", "The entry model runs constructors, main and destructors like the runtime",
     """For every module, the generated entry function executes exactly what the C++ runtime executes: all global constructors in order of priority (and of the list), then the entry point (for several entry
     points, any one of them), and after main the destructors: first the registered ones with their objects, in reverse order of registration (those of local statics before those of globals), then
     the static ones by descending priority. The generated functions are valid IR, have ids, are recognised as generated (and no others are), their calls are in the call graph, and data-flow analyses started at the
     model see the values that constructors and destructors leave. Building the model again for the same entry points, for another call graph, changes nothing.""",
     ["programs"],
     "All modules; explored: all modules with up to 3 (thorough 4) constructor entries, 2 destructor entries, 2 registered destructors per constructor, 2 local statics, 8 lists of entry points.",
     "The order depends on priorities, on the number of destructors of each kind, and on the order in which registrations occur in the module.",
     ["lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp", "include/phasar/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.h", "lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"],
     [("construction of the model", "lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp")],
     "explicit-state execution of the generated model for all bounded modules, compared with a reference simulation of the runtime",
     "All bounded modules are generated; every execution of the real generated model yields the sequence of calls, which is compared with the sequence of the runtime.")

prop("C21", "Taint configurations mark exactly what they describe",
     """For every module and every taint configuration - a JSON file with functions (source, sink or sanitizer results and parameters) and variables (locals by name and line, members by struct and name), or annotations on
     locals, parameters, members and functions in the code - exactly the described parameters, calls (also with a cast callee; no other uses of the function), variables and members
     get exactly the described category, in any order and combination of entries. All queries (categories, values generated, leaked and sanitized at an instruction, initial seeds) agree with
     that. Malformed configurations are rejected; entries that describe nothing in the module, and annotations that are not phasar's, change nothing.""",
     ["configurations"],
     "All modules and configurations; explored: all configurations of up to 2 (3) of 66 entries and all sets of up to 2 (3) annotations of 11 kinds with 8 strings.",
     "Entries interact (same member names in different structs, several categories for a function), which single examples do not show.",
     ["lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp", "lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp", "lib/PhasarLLVM/Utils/Annotation.cpp", "include/phasar/PhasarLLVM/TaintConfig/TaintConfigBase.h"],
     [("marking of values", "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp"), ("parsing", "lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp"), ("annotations", "lib/PhasarLLVM/Utils/Annotation.cpp")],
     "exhaustive enumeration of all bounded combinations of configuration entries and annotations on the real code, compared with the described marks",
     "All combinations of entries up to the bound are parsed by the real parser and applied to a module; every query on every value is compared with what the entries describe.")

prop("C22", "Instruction-interaction labels are exactly those a value came through",
     """For every program without aliases and every assignment of label sets to instructions and globals, the label set that the instruction-interaction analysis reports for a variable or register at a point is exactly the union,
     over all valid paths to it, of the labels of the instructions through which its current value came: its stores (which replace what was there), loads, operations, calls it was passed to,
     calls and returns that produced it, through locals, globals, heap cells, parameters (by value and by reference), results and recursion. Values from functions without body are reported
     as unknown. The syntactic and the alias-aware variant agree on such programs, and the variables reported as having no labels are exactly those that never get one.""",
     ["programs"],
     "All programs without aliases; explored: all programs with up to 2 (3) statements of 40 kinds in 10 control-flow shapes, all paths, three labellings.",
     "A label is lost or wrongly kept by one edge function for one combination of statement and control flow; the tests look at single variables of ten programs.",
     [I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h", I + "PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h", I + "DataFlow/IfdsIde/Solver/IDESolver.h", I + "Utils/BitVectorSet.h"],
     [("flow and edge functions", I + "PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h")],
     "explicit-state execution of all bounded programs with labelled values as the oracle for the real analysis on the real solver",
     "All paths of all bounded programs are executed with the labels carried along; the union over all paths is compared with the reported labels in both directions, at every instruction.")

prop("C23", "Reports name the true source position and variable of a value",
     """For every kind of IR value (allocas, other instructions, arguments, globals, functions) and every form of debug information: the variable name, function name, file path (absolute or relative to the directory), directory,
     line, column and debug location given for a value are those the debug information records for it, and the fallbacks (source file name of the module, 0, empty) are used exactly if there is none; all accessors agree with each other;
     the line of code is the text of that line of that file, trimmed if asked, and empty for missing files, directories and lines past the end; the summary survives JSON; two summaries are equivalent exactly if they differ at most in the
     directory of the file.""",
     ["inputs"],
     "All values and debug information; explored: 18 kinds x 2800 combinations of names, contents and positions.",
     "Each accessor handles each kind of value on its own path and the fallbacks hide mistakes; the tests look at a few variables of compiled programs.",
     [I + "PhasarLLVM/Utils/LLVMIRToSrc.h", "lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp"],
     [("position of a value", "lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp")],
     "exhaustive enumeration of values, debug information and file states on the real code",
     "All combinations of a value, its debug information, the names and the contents of the file are generated; the expected position is known from the generation, and every accessor is compared with it.")

prop("C24", "The graph store answers every query with exactly the matching edges",
     """A Hexastore (the database-backed store for graphs of named edges) answers each of the eight kinds of query - subject, predicate and object each given or ? - with exactly the stored edges that match, each once, whichever of its indices
     serves the query: independent of the order and repetition of the puts, of the names (which may be any strings, also ones that mean something in SQL), of whether the store is in memory or a file, was reopened or is used through several
     handles. A put takes effect for all queries or for none even if the process ends in the middle of it, and such a store can be opened and used again.""",
     ["inputs", "histories", "crash_points"],
     "All histories of puts, queries, reopenings and process ends; explored: all up to 4 puts over 2 names and 3 puts over 3 names, 2550 pairs of names, all histories of 3 operations on files, and all write operations of puts as crash points.",
     "Every kind of query has its own tables, join and index, so an error shows only for particular combinations of edges; the tests store a few edges with plain names, in memory, and ask few queries.",
     [I + "DB/Hexastore.h", "lib/DB/Hexastore.cpp", "lib/DB/Queries.cpp"],
     [("put and get", "lib/DB/Hexastore.cpp"), ("the queries", "lib/DB/Queries.cpp")],
     "exhaustive enumeration of operation histories and crash points on the real code",
     "All bounded histories are run on the real store, with a file layer that ends the process at each write operation in turn; a set of edges is the oracle for all queries.")

prop("C25", "Exported control-flow and call graphs are exactly the graphs",
     """The graphs that are exported as DOT or JSON - the interprocedural control-flow graph with and without source code information, the control-flow graph of a function, and the call graph - are well-formed and have exactly one node for
     every instruction (or function) and exactly the edges of the program: to each successor, from each call to the entry of each possible callee, from its exits back to the place after the call, and past calls of external functions. Labels name the
     right instruction, source position, branch and exceptional edge, whatever characters occur in names.""",
     ["programs"],
     "All programs; explored: all programs of one block with 3 statements, of two blocks with a statement each, and of three blocks, with 8 terminators, as 6 exports each.",
     "An edge that is missing for one combination of a terminator, a call and a callee goes unnoticed in a large graph; the tests check that some edges are present, in compiled programs.",
     ["lib/PhasarLLVM/ControlFlow/LLVMBasedICFGExportsImpl.cpp", "lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp", I + "ControlFlow/CallGraph.h"],
     [("exports of the ICFG", "lib/PhasarLLVM/ControlFlow/LLVMBasedICFGExportsImpl.cpp"), ("exports of a function", "lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp"), ("the call graph as DOT", "include/phasar/ControlFlow/CallGraph.h")],
     "exhaustive enumeration of programs; the exported state graphs are parsed and compared with those of the model",
     "All bounded programs are generated; their edges, known from the program, are compared with those read back from every export.")
