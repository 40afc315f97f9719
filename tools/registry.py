"""What each check runs."""
IDE_LIBS = None  # the complete archive; only referenced objects are linked

CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


_ide_rule = ("every exploded super-graph problem of 18 program shapes (branches, loops, calls, recursion, several callees, exits, "
             "return sites, seeds, special summaries) times a set of flow relations per edge, over 3 facts; non-trivial: at least one "
             "statement has a fact with a value other than top/bottom (IDE) or a fact other than zero (IFDS)")
_ide_state = "a configuration (call stack, statement, fact, value) of the explicit pushdown model, distinct per problem"
check("C01", title="IDE",
      runs=[dict(name="c01_ide", srcs=["c01_ide.cpp"])],
      rule=_ide_rule, state_is=_ide_state,
      assumptions=["finite lattice of height 3, distributive strict edge functions", "call stacks up to depth 4 in the recursive shapes (the second reference model, the summary fixpoint, has no such bound)"])
check("C02", title="IFDS",
      runs=[dict(name="c01_ide", srcs=["c01_ide.cpp"], env={"MC_IFDS": "1"})],
      rule=_ide_rule, state_is=_ide_state,
      assumptions=["call stacks up to depth 4 in the recursive shapes (the second reference model, the summary fixpoint, has no such bound)"])

check("C03", title="interrupt",
      runs=[dict(name="c03_interrupt", srcs=["c03_interrupt.cpp"])],
      rule="every problem of 18 program shapes with two relations per edge; for each: every query at which a cancellation flag can be raised, every "
           "second interruption up to 8 queries later, all answer patterns of a predicate up to 3 questions, intervals and timeouts under 5 virtual clocks, "
           "chunked and single stepping; non-trivial: has at least one seed",
      state_is="a state of the solver between two worklist steps",
      assumptions=["the canceller acts while the solver is querying the problem (flow functions and their targets); finer interleavings "
                   "cannot be observed because the flag is only read between steps"])

check("C04", title="edge functions",
      runs=[dict(name="c04_edgefn", srcs=["c04_edgefn.cpp"], flags=["-O1", "-fsanitize=address,undefined"])],
      rule="all terms over every shipped edge-function template up to a depth, on nine lattices and limits, evaluated on every lattice value; all histories of "
           "copy/move/assign/drop/cast operations on edge-function handles up to a length; non-trivial: the two operands differ",
      state_is="a pair of edge-function terms, or a state of the handles in the storage histories",
      assumptions=["the hash law excludes heap-stored edge functions without a hash of their own (they are hashed by address by design)"])

check("C05", title="flow functions",
      runs=[dict(name="c05_flowfn", srcs=["c05_flowfn.cpp"])],
      rule="every shipped flow-function template with every choice of its parameters over 4 facts, all unions/compositions of two (thorough: three) of them, in "
           "three fact/container types, every history of three evaluations; the LLVM call/return/call-to-return/store templates on every generated call "
           "site of up to 2 parameters, 2 variadic extras, all actuals, flags and four predicates; non-trivial: not the identity",
      state_is="a template instance (or generated call site with its parameters)")

check("C06", title="BitVectorSet",
      runs=[dict(name="c06_bitset", srcs=["c06_bitset.cpp"], libs=False)],
      rule="every history of 3 (thorough: 5) operations (32 kinds) on two sets over 3 elements registered on the way plus up to 128 registered before, from every "
           "start content; after each operation everything observable is compared; non-trivial: each start configuration",
      state_is="contents of both sets, registered elements and last operation")
check("C07", title="containers",
      runs=[dict(name="c07_containers", srcs=["c07_containers.cpp"], flags=["-O1", "-fsanitize=address,undefined"])],
      rule="every history of operations up to a length on StableVector (4 macro operations crossing the block boundaries), Table (4), EquivalenceClassMap (5), "
           "MaybeUniquePtr (4), with everything observable compared after each operation under AddressSanitizer; non-trivial: more than one block / not empty",
      state_is="a history (StableVector, EquivalenceClassMap, MaybeUniquePtr) or contents (Table)",
      assumptions=["EquivalenceClassMap: a key is never inserted with two different values (the type has no defined meaning for that)"])
check("C08", title="graphs",
      runs=[dict(name="c07_containers", srcs=["c07_containers.cpp"], flags=["-O1", "-fsanitize=address,undefined"], env={"MC_GRAPH": "1"})],
      rule="every history of 5 graph operations over at most 4 nodes; every DAG with 4 nodes, two labels, up to 3 ordered successors and every cyclic graph with 3 "
           "nodes for the minimisation; non-trivial: at least two nodes are equivalent",
      state_is="a graph history or a labelled graph",
      assumptions=["minimality is only claimed for acyclic graphs with at most two successors (the algorithm compares successors in order)"])
check("C09", title="monotone framework",
      runs=[dict(name="c09_mono", srcs=["c09_mono.cpp"])],
      rule="every control-flow graph with up to 3 nodes and at most 2 ordered successors times all 36 monotone functions on two facts per node, every such graph with 4 "
           "nodes times 6 functions per node, two entry functions with 3 nodes each, union and intersection, all seeds; every history of 6 (thorough: 7) operations on "
           "two call strings with limits 0-3; non-trivial: each graph / history",
      state_is="a configuration (node, set along one path) of the reference exploration, or contents of two call strings",
      assumptions=["the entry node has no predecessors (as in LLVM IR)"])
check("C10", title="IRDB ids",
      runs=[dict(name="c10_cfg", srcs=["c10_cfg.cpp"])],
      rule="every module with 0-2 globals and 0-2 (thorough: 3) functions (5 names, 0-2 arguments, declarations, 1-3 sizes) made in 5 ways with up to 2 functions inserted "
           "afterwards; non-trivial: each module",
      state_is="a module with its construction and insertion history")
check("C11", title="CFG",
      runs=[dict(name="c10_cfg", srcs=["c10_cfg.cpp"], env={"MC_CFG": "1"})],
      rule="every function with 1-2 blocks x 9 contents x 7 terminator kinds with all targets, 3 blocks x 3 (thorough: 9) contents, invoke/landing pad shapes with 4 blocks, "
           "field accesses, lazy static initialisation; all pairs of instructions, forward and backward, ignoring debug intrinsics or not; 2080 mangled names; "
           "non-trivial: each function",
      state_is="an instruction of a generated function in one of the two views")
check("C12", title="call graphs",
      runs=[dict(name="c12_callgraph", srcs=["c12_callgraph.cpp"])],
      rule="every program of three families: 1-3 functions with all direct call relations, linkages and entry point lists; function pointers of 3 signatures from 6 "
           "sources over every sequence of up to 2 (thorough: 3) of 13 ways through memory, parameters, returns, phis and casts; class hierarchies with up to 3 classes "
           "(single inheritance), every set of declared/pure/overridden methods, covariant or not, every choice of one of 7 kinds of objects per class (thorough: 4 classes); "
           "every execution of each program; non-trivial: each program",
      state_is="a program state (executed instruction with its store) of the explicit-state executor",
      assumptions=["virtual calls through secondary base classes are not explored (one vtable per class)",
                   "RTA and CHA assume that all objects are created in the module"])
check("C13", title="type hierarchies",
      runs=[dict(name="c12_callgraph", srcs=["c12_callgraph.cpp"], env={"MC_TYPES": "1"})],
      rule="every class hierarchy with up to 3 classes, up to two bases each in either order, two methods that are declared, pure or absent per class, three naming schemes "
           "(thorough and for one method choice: 4 classes), as LLVM types with type infos and vtables, and as debug info with or without identifiers, equal names, "
           "typedefs; every sequence of up to 4 named or unnamed C types; non-trivial: each hierarchy",
      state_is="a class of a generated hierarchy")
check("C14", title="alias sets",
      runs=[dict(name="c14_alias", srcs=["c14_alias.cpp"])],
      rule="every program with up to 2 (thorough: 3) statements from 15 kinds (allocas, malloc, fields, offsets, casts, selects, phis, loads, stores, conditional stores, calls that return, "
           "store and exchange pointers, cells of cells) over all operands, with and without a pointer parameter, every execution of each; three alias analyses, lazy, eager and in "
           "reverse order; every history of 3 (thorough: 4) introduceAlias/mergeWith/write-read/query operations on two alias-set objects; 54 modules written and read; "
           "non-trivial: each program / history",
      state_is="a program state of the explicit-state executor, or a step of a history",
      assumptions=["the alias sets are intra-procedural (by design): only pointers of one function and the globals it mentions are compared"])
check("C15", title="linear constants",
      runs=[dict(name="c15_lca", srcs=["c15_lca.cpp"])],
      rule="every program of four families with up to 2 statements (21 linear, 6 through pointers - thorough: 3 statements -, 42 other, 5 with values from outside) in 10 shapes of sequence, "
           "branch and loop over 2-3 variables, in main and in a function called with two values; every sequence of 2 (thorough: 3) of 17 operations on registers, two of which may be joined by a branch, phi or select; programs of one statement also with a debug intrinsic in front of every instruction; every execution of each up to 50 steps; before and after each step all locals, parameters, globals and registers are compared; non-trivial: each program",
      state_is="a value of one variable or register before one instruction, over all executions",
      assumptions=["variables are not modified through other pointers, and external functions do not modify variables (the analysis excludes both by design)",
                   "exactness is only claimed for invertible operations on the flat lattice, with values that start as constants in the analysed function"])

check("C16", title="uninitialized variables",
      runs=[dict(name="c16_uninit", srcs=["c16_uninit.cpp"])],
      rule="every program of two families with up to 2 statements (22 on scalars and a global, where the result has to be exact; 21 other, where it has to be complete) in 10 shapes of sequence, branch and loop over 2-3 variables; "
           "every execution of each up to 50 steps; before each step all variables, parameters, globals and registers are compared, and all reported uses; non-trivial: each program",
      state_is="whether one variable or register is initialized before one instruction, over all executions",
      assumptions=["no aliasing between pointers; results of functions without a body are initialized, and such functions may initialize variables they get a pointer to (the analysis decides so by design)"])

check("C17", title="taints",
      runs=[dict(name="c17_taint", srcs=["c17_taint.cpp"])],
      rule="every program of two families with up to 2 statements (21 on scalars, where the leaks have to be exact; 35 other, where they have to be complete) in 10 shapes of sequence, branch and loop over 2-3 variables, and every sequence of 2 (thorough: 3) operations on registers with every subset of them sent to a sink; "
           "every execution of each up to 60 steps with tainted values marked; all leaks at all sinks are compared, for sources, sinks and sanitizers given by functions and parameters and by callbacks; non-trivial: each program",
      state_is="a reached instruction with all its marked values",
      assumptions=["taints follow copies of values; results of arithmetic are not tainted by design, and libc functions other than memcpy are not executed"])

check("C18", title="type states",
      runs=[dict(name="c18_typestate", srcs=["c18_typestate.cpp"])],
      rule="every program with up to 2 (thorough: 3) statements of 22 kinds over two file handles in 10 shapes of sequence, branch and loop, and up to 3 in a function called with an opened and a closed file; every execution of each up to 60 steps with the state of each file tracked; "
           "before each step the states of all variables, parameters and passed handles are compared; non-trivial: each program",
      state_is="the state of one handle before one instruction, over all executions",
      assumptions=["two variables never hold the same file, and the alias information is exact (the analysis updates all aliases strongly by design)"])

check("C19", title="path sensitivity",
      runs=[dict(name="c19_paths", srcs=["c19_paths.cpp"])],
      rule="every program of 18 families (1-3 statements moving facts, by flows or calls of 1-2 functions; 28 branch conditions over up to 3 variables, nested, in and after loops, with equal targets, "
           "over fields, loads of unnamed variables, calls; every acyclic control-flow graph of up to 5 blocks), every fact at the return, with and without graph minimisation, an additional constraint and limits of depth and number of paths; every path of the exploded supergraph; "
           "every assignment of small values; non-trivial: each program with at least one path",
      state_is="an instruction with a fact on a path of the exploded supergraph",
      assumptions=["conditions over variables that are not changed after their initialisation; mathematical integers (unsigned comparisons: only soundness)",
                   "completeness of the paths is only claimed for acyclic exploded supergraphs and for programs without branches"])

check("C20", title="global constructors and destructors",
      runs=[dict(name="c20_globals", srcs=["c20_globals.cpp"])],
      rule="every module with up to 2 (with fewer kinds 3; thorough: 3, 4) constructor entries (3 priorities; null, or registering 0-2 destructors), 0-2 destructor entries, 0-2 local statics, destructors shared or not, with and without casts, "
           "8 lists of entry points, model built once or twice; every execution of the model is compared with the runtime's order; linear constant analysis over the model; non-trivial: each module",
      state_is="an executed instruction of the model",
      assumptions=["entry points other than main have no parameters (the model documents that it skips them)", "destructors of equal priority are unordered"])

check("C21", title="taint configurations",
      runs=[dict(name="c21_taintcfg", srcs=["c21_taintcfg.cpp"])],
      rule="every JSON configuration of up to 2 (thorough: 3) of 66 entries (functions by name, linkage name or display name with source/sink/sanitizer results and parameters, all parameters, out-of-range indices; local variables and struct members) in any order, every list of up to 3 parameter indices; "
           "every set of up to 2 (3) of 11 annotations with 8 annotation strings each; 18 malformed files; all queries on all values and instructions of the module; non-trivial: each configuration",
      state_is="a value of the module with its categories",
      assumptions=["the JSON schema validator is not installed; a small one of the harness replaces it", "members are recognised by the names of the address computations, as documented in the code"])

check("C22", title="instruction interactions",
      runs=[dict(name="c22_iia", srcs=["c22_iia.cpp"])],
      rule="every program with up to 2 (thorough: 3) statements of four families (6 basic, 14 with calls, 8 with pointer parameters, 12 others) in 10 shapes of sequence, branch and loop over 2-3 variables; up to three ways of labelling "
           "(all different, writes and calls only, overlapping groups); all paths up to 90 steps and call depth 4, with the labels carried along; syntactic and alias-aware variant of the analysis; non-trivial: each program and labelling",
      state_is="a reached instruction with all labelled values",
      assumptions=["every memory location has one name per function (no aliases; for possibly aliased parameters only missing labels count)", "targets of a call have all bodies or none", "values derived from constants only carry no labels until they are stored as a literal, by design"])

check("C23", title="source positions of IR values",
      runs=[dict(name="c23_src", srcs=["c23_src.cpp"])],
      rule="18 kinds of value (allocas, loads, calls, arguments, globals, functions; with and without debug information of every form) x 5 forms of file name and directory x same/other file of the compile unit x 7 states of the file "
           "(5 contents, a directory, missing) x lines 0-4 x columns 0 and 7 x two scopes x two module names; non-trivial: each combination",
      state_is="a module with its source file",
      assumptions=["a value that describes a variable has the position of that description, as the code intends"])

check("C24", title="graph store",
      runs=[dict(name="c24_hexastore", srcs=["c24_hexastore.cpp"])],
      rule="all sequences of up to 4 (thorough: 5) puts over 2 names and up to 3 puts over 3 names; all pairs of 51 names (quotes, columns, SQL, numbers, format strings, empty) with every single put (thorough: and every two); all sequences of up to 3 (thorough: 4) "
           "puts through two handles of one file and reopenings; the process ended at every write operation of a put or of the creation, the write itself not, half or almost done; after each, all queries over the names and ? are compared; non-trivial: each sequence",
      state_is="a store after a sequence of operations (or a crash)",
      assumptions=["the process ends, not the machine: writes that were done persist", "names contain no NUL characters; ? is the wildcard"])

check("C25", title="exported graphs",
      runs=[dict(name="c25_export", srcs=["c25_export.cpp"])],
      rule="main with one block of up to 3 (thorough: 4) statements of 10 kinds (operations, debug intrinsics, direct, indirect, recursive and external calls, names with special characters) x 2 terminators x 4 forms of callees; with 2 and 3 blocks x 8 terminators "
           "(return, branches, switches, unreachable, invokes) x all successors x statements; each export is parsed and compared, in both directions; non-trivial: each program",
      state_is="an instruction of an exported graph",
      assumptions=["which functions a call reaches is C12; exits by exception are not told apart from returns in the exported edges, as the code says"])
