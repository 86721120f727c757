COP = "copra/src/phase_driver.c"
RTRUST = "Samples seeded histories of seeded specifications; trusts the reference model, the simulator's heap and gcc. 30 % of the specifications are built with NDEBUG."
DYN = "cocogen/dynamic_backend/"

prop("P08", "Phases, passes and traversals run exactly as the specification orders them",
     "A generated compiler performs the actions of its start phase in the specified order, depth first, each exactly once unless a gate, a cycle, an error or a breakpoint says otherwise: a gated phase runs if and only if its gate function, asked exactly once on entry, says so; every action runs on the syntax tree the one before it returned (and on the roots it selects); the function called for a pass is the one the specification names; the current action identifier is unique per action and increases in specification order; progress announcements name the actions performed, in order.",
     ["inputs", "histories"], "all specifications, all answers of gates and all change notifications and tree replacements by user code, any verbosity",
     "The few runtime tests drive fixed phases with fixed answers; order, gating and numbering in arbitrarily nested phases are never compared with the specification.",
     [COP, "cocogen/phase_driver/", "cocogen/frontend/lifetimes/assign_id_to_actions.c"],
     [m("CCNdispatchAction, CCNstart", COP), m("action tables and identifiers", "cocogen/phase_driver/gen_action_array.c, gen_ids_table.c"), m("action numbering", "cocogen/frontend/lifetimes/assign_id_to_actions.c")],
     "sequence of user callbacks, their arguments, the action id and announcements", RSIM, RTRUST)
prop("P09", "Cycle phases iterate to a fixed point, within their bound",
     "A cycle phase is repeated as long as, and only while, some action inside it (at any depth) notified a change during the last iteration and the iteration bound is not exceeded; a nested phase or cycle neither loses nor invents notifications of the enclosing one, and entering a cycle again starts afresh.",
     ["inputs", "histories"], "all nestings of phases and cycles, all histories of change notifications, all iteration bounds set at any time",
     "Fixed points over nested cycles depend on the history of notifications; the tests use one cycle and one history.",
     [COP, "copra/ccn/phase_driver.h"], [m("cycle loop, CCNcycleNotify, CCNsetCycles", COP)], "sequence of user callbacks, value of the cycle counter", RSIM, RTRUST)
prop("P10", "A reported error stops the compilation at the specified point",
     "After user code signals an action error, no further action is started once the running one has completed; after a phase error, no action outside the running phase is started once that phase has completed (including its remaining actions and, for a cycle, iterations). In both cases the process ends with the compilation-failed message and a failing exit status. Without a signalled error it never does, and neither a gate, a cycle nor a nested phase loses a signalled error.",
     ["inputs", "histories"], "all specifications, all points at which user code signals errors, including nested phases, cycles and nested traversals",
     "The tests never signal an error in a nested phase or cycle.",
     [COP, "copra/ccn/phase_driver.h", "palm/src/ctinfo.c"], [m("CCNerrorAction, CCNerrorPhase", COP), m("CTIabortCompilation", "palm/src/ctinfo.c")],
     "sequence of user callbacks, exit status, standard error", RSIM, RTRUST)
prop("P11", "A breakpoint stops at the named action and nowhere else",
     "With a breakpoint set by name, dotted path or action identifier, the compiler performs exactly the actions up to and including the first performance of the named one, calls the breakpoint handler once with the tree at that moment, and exits successfully; a breakpoint that names no performed action changes nothing in the run.",
     ["inputs", "histories", "configurations"], "all specifications, all spellings of all breakpoints (existing or not), all histories",
     "No test sets a breakpoint.",
     [COP, "copra/ccn/phase_driver.h"], [m("CCNsetBreakpoint, path matching, CCNgetActionFromID", COP)], "sequence of user callbacks, handler call, exit status", RSIM, RTRUST)
prop("P12", "Consistency checks report exactly the violated lifetimes and types",
     "With consistency checks enabled, before every action the generated checker reports every mandatory child or attribute that is missing, every disallowed child, attribute or node that is present, and every child of a wrong type, exactly for the actions the lifetimes in the specification cover, and reports nothing else; if it found an error, the compilation ends before that action.",
     ["inputs", "histories"], "all sets of lifetimes (any action, phase, cycle, open or closed range, several per entity), all trees, all histories of tree changes",
     "Which actions a lifetime covers depends on nesting and range spelling; the tests cover a handful.",
     ["cocogen/frontend/lifetimes/", "cocogen/dynamic_backend/gen_check_traversal.c", COP],
     [m("lifetime resolution", "cocogen/frontend/lifetimes/"), m("generated checks", DYN + "gen_check_traversal.c"), m("running the checks", COP)], "diagnostics per action, exit status", RSIM, RTRUST)
prop("P13", "Traversals visit exactly the nodes they should and keep the tree intact",
     "Starting a traversal calls the traversal function of the right traversal for every node type it covers, passes through nodes it does not cover to all their children in declaration order, and passes to functions and stores into parents exactly the nodes that functions return; TRAVopt, TRAVdo and child macros behave alike; nested traversals, also those put on the stack with TRAVpush and TRAVpop, restore the current traversal; PASSstart calls the function of the pass with the given tree; nothing else in the tree changes.",
     ["inputs", "histories"], "all specifications (all-node and selective traversals, nodesets), all trees, all replacement decisions, any nesting depth",
     "The traversal tables are generated per specification, and the tests traverse a few small trees.",
     ["copra/src/dynamic_core.c", "cocogen/dynamic_backend/gen_trav_table.c", "cocogen/dynamic_backend/gen_trav_v_table.c", "cocogen/dynamic_backend/gen_node_trav_table.c"],
     [m("TRAVstart, TRAVdo, TRAVopt, TRAVchildren", "copra/src/dynamic_core.c"), m("dispatch tables", DYN + "gen_trav_v_table.c")], "sequence of traversal functions and nodes, the tree afterwards", RSIM, RTRUST)
prop("P14", "Every running traversal has its own data, initialised and released once",
     "Each start of a traversal with data creates fresh data, calls its initialiser exactly once before the first visit and its finaliser exactly once after the last, and the data reached through DATA_*_GET in any callback is that of the innermost running traversal, unaffected by traversals nested in it.",
     ["inputs", "histories"], "all traversal data declarations, all nestings of traversals (including of itself)",
     "No test nests a traversal with data in itself.",
     ["copra/src/dynamic_core.c", "cocogen/dynamic_backend/gen_trav_data_ctors.c", "cocogen/dynamic_backend/gen_trav_data_getters.c", "cocogen/dynamic_backend/gen_trav_data_tables.c"],
     [m("traversal stack", "copra/src/dynamic_core.c"), m("data constructors", DYN + "gen_trav_data_ctors.c")], "data values observed in callbacks, initialiser and finaliser calls", RSIM, RTRUST)
prop("P15", "Copying a tree gives an equal and independent tree",
     "CCNcopy of any subtree yields a tree with the same node types, children, attribute values and source locations; strings and children are copied, so changing or freeing one of the two never affects the other, and the original is unchanged.",
     ["inputs", "histories"], "all specifications, all trees, all histories of changes and releases after copying",
     "Sharing between copy and original shows only in histories that change or free one of them later.",
     ["cocogen/dynamic_backend/gen_copy_traversal.c", "copra/src/dynamic_core.c"], [m("generated copy traversal", DYN + "gen_copy_traversal.c")], "both trees after every operation, simulated heap", RSIM, RTRUST)
prop("P16", "Freeing a tree releases everything it owns, exactly once",
     "CCNfree of any subtree releases all nodes below it, their owned strings and internal blocks exactly once and nothing else, and after the final cleanup a generated compiler has released every block the framework allocated.",
     ["inputs", "histories"], "all specifications, all trees, all histories of constructing, replacing, copying and freeing",
     "The tests check no heap state.",
     ["cocogen/dynamic_backend/gen_free_traversal.c", COP, "copra/src/dynamic_core.c"], [m("generated free traversal", DYN + "gen_free_traversal.c"), m("cleanup", COP)], "live blocks of the simulated heap, by allocation site", RSIM, RTRUST)
prop("P17", "Memory exhaustion ends a generated compiler orderly",
     "When any allocation of a generated compiler fails, it stops with the out-of-memory message and a failing exit status, without crashing, hanging or misusing memory, and everything it did before is as in the run without the failure.",
     ["fault_sequences", "histories", "inputs"], "all specifications, all histories, failure of any allocation, alone or with all later ones",
     "Tests never run out of memory.",
     ["palm/src/memory.c", "palm/src/ctinfo.c", "copra/src/", DYN], [m("checked allocation", "palm/src/memory.c"), m("out-of-memory abort", "palm/src/ctinfo.c")], "exit status, standard error, history up to the failure, simulated heap", RSIM,
     "" + RTRUST)
prop("P18", "Attribute grammars compute every attribute once, from final values",
     "For an accepted attribute grammar and any tree, evaluating the attributes calls each equation of each node at most once, calls the variant for exactly the optional children that are absent, passes it the final values of the attributes it depends on, stores its result in the attribute, and has evaluated every attribute a value can reach; copied and freshly constructed trees evaluate alike.",
     ["inputs", "histories"], "all accepted grammars (inherited, synthesized, nodesets, optional children), all trees, repeated evaluation on one process",
     "The visit schedule and generated visits depend on the whole dependency graph; the tests run three small grammars.",
     ["cocogen/frontend/attribute_scheduler/", DYN + "gen_visit_source.c", DYN + "gen_ag_source.c"],
     [m("visit scheduling", "cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c"), m("visit functions", DYN + "gen_visit_source.c")], "calls of equation functions with arguments, attribute values afterwards", RSIM,
     "Restricted to grammars in which nodeset members are visited alike; the excluded family is known finding K01. " + RTRUST)
prop("P20", "Valid specifications give sources that compile, and nodes start initialised",
     "For every valid specification the generated sources compile and link against the runtime, with and without NDEBUG, and the generated stubs of user code complete them to a program that lacks only its gates, breakpoint handler and main function; a constructor returns a node of its type with the given children and attributes, every other child absent, every other attribute at its documented initial value, and its location unset, whatever the memory contained before.",
     ["inputs", "configurations"], "all valid specifications, all contents of fresh memory",
     "The compile step is tested for a few specifications, and initial values only with benign fresh memory.",
     [DYN + "gen_node_constructor.c", DYN + "gen_node_init_funcs.c", DYN + "gen_node_structs.c", DYN],
     [m("generated constructors", DYN + "gen_node_constructor.c"), m("all emitted sources", DYN)], "compiler diagnostics; fields of fresh nodes", RSIM,
     "Names that collide with C or framework identifiers are left out. " + RTRUST)
prop("P21", "A hash table behaves as a map under every history of operations",
     "Whatever sequence of insertions, lookups, removals, iterations, maps, folds, copies and clears is applied, a palm hash table answers as a finite map does: the last value inserted for a key, its element count, each entry exactly once in iterations; copies are independent; deletion releases all memory.",
     ["histories", "configurations", "fault_sequences"], "all histories over several tables, string, pointer, integer and fully colliding keys, all memory layouts, failure of any allocation",
     "Unit tests apply short fixed sequences; removal, copying and iteration with collisions in long histories are not covered.",
     ["palm/src/hash_table.c", "palm/include/palm/hash_table.h"], [m("buckets and iteration", "palm/src/hash_table.c")], "results of all calls, simulated heap", "deterministic simulation of the real library against an executable reference model",
     "Pointer keys hash by simulated addresses, so layouts vary. Tables that hold one key twice are not formed (insertion semantics on duplicates undocumented). " + TRUST)
prop("P22", "Diagnostics are printed completely and counted exactly",
     "Every note, warning and error handed to the diagnostics library appears on the console with its label, complete text (its lines kept as lines, and wrapped at spaces to the length of a line), source location and source line, in order; error and warning counts equal the number reported; CTIabortOnError ends the process with a failing status if and only if an error was reported, and the abort message states the counts. With the interrupt handlers installed, a crash signal ends the process with the crash notice and a failing status.",
     ["histories", "fault_sequences"], "all sequences of diagnostics of any length and content, with and without a failing console, failure of any allocation",
     "Unit tests do not look at the console, and never at texts longer than a line or a failing console.",
     ["palm/src/ctinfo.c", "palm/include/palm/ctinfo.h"], [m("message formatting and counters", "palm/src/ctinfo.c")], "console output, counters, exit status", "deterministic simulation of the real library against an executable reference model",
     "Where a line breaks is judged for texts whose words all fit in a line. " + TRUST)
prop("P24", "String and memory utilities keep their contract throughout any history",
     "Whatever sequence of palm string and memory operations is applied, each returns the documented result in memory of its own; arguments and all strings returned earlier stay unchanged, also after arguments are released or overwritten; a tokenization in progress is unaffected by every other call and releases its copy with its last token; and once all strings are released no memory is left. When an allocation fails the process ends orderly.",
     ["histories", "configurations", "fault_sequences"], "all histories over a pool of live strings of any content, all memory layouts and contents of fresh memory, failure of any allocation",
     "Unit tests call each function a few times on its own, with benign fresh memory, and check neither the heap nor earlier results.",
     ["palm/src/str.c", "palm/src/memory.c", "palm/include/palm/str.h", "palm/include/palm/memory.h"], [m("string functions", "palm/src/str.c"), m("allocation", "palm/src/memory.c")], "results of all calls, contents of the pool, simulated heap", "deterministic simulation of the real library against an executable reference model",
     "Arguments outside the documented domain (negative lengths, positions beyond the string, an empty token, NULL where no function of the family documents it) are not passed. Concatenating only empty strings with STRcatn may yield NULL or an empty string. " + TRUST)
prop("P25", "Accessors reach their own field, and refuse every other node",
     "For every node type, nodeset, child and attribute, the generated accessor read or written through on a node it applies to reaches exactly that field of that node and no other; applied to a node it does not apply to, or to a grammar attribute that has no value yet, it stops a debug build of the generated compiler at once, with a message naming the accessor or attribute, the expected type and the place of the access.",
     ["inputs", "histories"], "all specifications, all trees, all histories of reads and writes through node and nodeset accessors, before and after attribute evaluation and copying",
     "Every test uses a few accessors of a few types, nodeset accessors hardly, and never one on a wrong node.",
     [DYN + x for x in ("gen_node_macros.c", "gen_node_access_funcs_error.c", "gen_nodeset_access_funcs_error.c")],
     [m("accessor macros", DYN + "gen_node_macros.c"), m("checked accessor functions", DYN + "gen_nodeset_access_funcs_error.c")], "the whole tree after every write, values read, exit status and message of refused accesses", RSIM,
     "Accesses that must be refused end a history, so each history has at most one; NULL is not passed. " + RTRUST)

prop("P26", "The generator's descriptions of a specification agree with it",
     "The diagram ast.dot is well formed and has exactly one vertex per node and nodeset and one edge per child, per link attribute and per member, between the vertices of the definitions meant however the references are spelled; --show-ast lists every phase with its actions and their identifiers, every traversal with its nodes, every pass, node and nodeset with its members, children and attributes; the graph of the attribute partitions shows for every production exactly the attributes of each occurrence, the dependencies the equations lay and those that follow from all productions together, every attribute in one partition of its kind, and no dependency on a later partition of the same node; and the listed visits of every node take and give each of its attributes once, evaluate each of its equations once and after what it depends on, and visit its children in the order of their visits.",
     ["inputs", "configurations"], "all accepted specifications with and without attribute grammars, all memory layouts",
     "No test looks at these outputs. Which dependencies follow from other productions is a fixed point over the whole grammar.",
     ["cocogen/dot/gen_dot.c", "cocogen/dot/gen_dot_ag.c", "cocogen/print/print.c", "cocogen/frontend/attribute_scheduler/"],
     [m("diagram of the tree", "cocogen/dot/gen_dot.c"), m("graph of attribute dependencies", "cocogen/dot/gen_dot_ag.c"), m("listing", "cocogen/print/print.c"), m("partitions", "cocogen/frontend/attribute_scheduler/partition_nodes.c")],
     "ast.dot, the graph of the partitions, standard output of --show-ast", "deterministic simulation of the real generator against an executable model of the specification",
     "Layout and labels of the graphs that trace the steps of the scheduler (pre_induce, induce_N) and the listing's indices of traversals are not judged. " + TRUST)

prop("P27", "The generator does what its command line asks",
     "Whatever options are given, in any order, number and accepted spelling: the files of the specification appear in the last output directory named, or ccngen/ if none is, and are those of a plain run; with a breakpoint at an action of the generator's own phases it stops there successfully, having announced (when verbose) exactly the actions up to it and written only what a full run writes by then; the listing and the announcements appear exactly when asked for; a request for help, the version or the structure answers it and touches no file; and an unknown or ambiguous option, a missing or impossible option value, and any number of input files but one are refused with a message and a failing exit status before any file is touched.",
     ["inputs", "configurations"], "all valid specifications and command lines, all memory layouts, failure of any allocation",
     "The tests use one command line.",
     ["cocogen/commandline.c", "cocogen/main.c", "copra/src/phase_driver.c", "cocogen/dynamic_backend/gate.c", "cocogen/filesystem/"], [m("options", "cocogen/commandline.c"), m("output directories", "cocogen/main.c"), m("breakpoints", "copra/src/phase_driver.c")],
     "exit status, standard output and error, all files", "deterministic simulation of the real generator against an executable model of the command line",
     "The static backend is unfinished; what it generates is not judged. The files of a full run are those of a plain run of the same generator, which P01, P05 and P20 judge. Iteration bounds below the default may refuse a grammar. " + TRUST)

prop("P28", "The generator behaves alike however it is built",
     "Built as it is shipped, with its assertions enabled, or from the sources it generates from its own specification instead of the committed ones, the generator accepts and refuses the same inputs, ends alike, shows the same diagnostics and listing, and writes the same files, also in a dirty directory, under file and console errors, and after a crash; no assertion fails and no build ends in undefined behaviour that the compiler can trap; and the sources it generates from its own specification build the generator.",
     ["inputs", "configurations", "fault_sequences"], "all inputs (valid, invalid, damaged, its own specification), command lines, memory layouts, earlier contents of the directory, file and console errors, crash points, failing allocations",
     "The tests build the generator in these ways too, but run it on a few small inputs only, without looking at what it writes, and never with a fault.",
     ["cocogen/main.ccn", "cocogen/ccngen/", "cocogen/frontend/", "cocogen/dynamic_backend/", "copra/src/", "palm/src/"],
     [m("own specification", "cocogen/main.ccn"), m("its generated sources", "cocogen/ccngen/"), m("the generator of both", "cocogen/dynamic_backend/"), m("assertions", "cocogen/frontend/")],
     "exit status, standard output and error, all files, of each build under the same plan", "deterministic simulation of differently built generators, compared under the same schedule of faults",
     "A debug build may print more. Under failing allocations only an orderly end is judged, as the builds allocate differently. The scanner, the parser and the hand-written passes are the same sources in every build. " + TRUST)

prop("P29", "Debug output, assertions and ensured directories keep their contract",
     "Whatever sequence of calls is made: debug messages appear completely, in order and with their module, until debug output is turned off, and none after that; a build without assertions prints none and evaluates none of their arguments; an assertion evaluates its condition once, does nothing if it holds, and otherwise reports its place and message and aborts; ensuring a directory leaves it there or, when a file is in its place, its parent is missing or the system refuses, ends the process with a failing status and a message naming it, changing nothing else and keeping nothing open.",
     ["histories", "fault_sequences", "configurations"], "all histories of debug output, assertions, ensured directories and changes of the disk, with and without NDEBUG, failure of any file operation or of the console",
     "No test of these parts exists.",
     ["palm/src/dbug.c", "palm/include/palm/dbug.h", "palm/src/filesystem.c", "palm/include/palm/filesystem.h"], [m("debug output", "palm/src/dbug.c"), m("assertion macros", "palm/include/palm/dbug.h"), m("directories", "palm/src/filesystem.c")],
     "standard output and error, evaluations of conditions, exit status, the simulated disk", "deterministic simulation of the real library against an executable reference model",
     "What the deprecated DBUGF does after debug output was turned off is not judged. " + TRUST)
