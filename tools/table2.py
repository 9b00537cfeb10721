prop("C08", "An input file means the same program however it is written",
     "Blanks, tabs, comment lines, trailing comments, old and extended matrix headers, explicit or implicit counts of "
     "union pieces, isl notation instead of matrices, generated or user given names: every documented notation of the "
     "same context, domains, scatterings and names is read as the same program. The generated code then executes that "
     "program's instances in order; loops are named after a scattering dimension or an iterator and hold the value of "
     "that dimension at every statement inside; parameters and output language are those of the file.",
     ["inputs"], "all notations of all inputs",
     "The test inputs use one style each; no test rewrites an input in another notation.",
     ["source/input.c", "source/isl/domain.c", "source/names.c", "source/union_domain.c"],
     [("reader", "source/input.c:cloog_input_read"), ("matrix and isl readers", "source/isl/domain.c"),
      ("names", "source/input.c, source/names.c")],
     ["cloog_input_read", "the cloog program"], TV, TN)
prop("C09", "Malformed input files are refused cleanly, well formed ones are read",
     "Whatever bytes the input file holds - truncated, wrong counts, wrong dimensions, misplaced tokens, over-long "
     "names, text that is no number - the program terminates with a message on standard error and a non-zero status, or "
     "reads a program it generates correct code for; it never crashes, never reads or writes outside its memory and "
     "never loops. A document of the documented grammar is accepted and means what the grammar says.",
     ["inputs"], "all byte sequences as input files",
     "The suite only reads well formed files.",
     ["source/input.c", "source/isl/domain.c", "source/names.c", "source/cloog.c"],
     [("reader", "source/input.c"), ("matrix reader", "source/isl/domain.c:cloog_domain_read"),
      ("errors", "source/cloog.c:cloog_die")],
     ["the cloog program: exit status, standard error"],
     "TLA+ specification Reader (grammar of documents as a state machine with error transitions): TLC enumerates "
     "documents with their verdict, they are replayed into the real program built with the sanitizers; accepted "
     "documents are judged by AstScan",
     "All documents of the bounded grammar machine are enumerated, a sample of 6000 (all in thorough) is replayed, plus "
     "2500 randomly damaged texts, for which only crash freedom, termination and the error protocol are checked.")
prop("C10", "Command lines mean what the manual says",
     "Every command line of documented options, in any order and with repetitions, sets exactly the documented "
     "settings: the last occurrence wins, defaults apply otherwise, options are independent of each other, negative "
     "values and out of range values are treated as documented, and a command line with an unknown option, a missing "
     "or non numeric value, or an unreadable file is refused with a message and a non-zero status. Whole runs of the "
     "program depend only on the resulting settings and the input.",
     ["inputs", "configurations"], "all command lines",
     "The suite uses a handful of fixed option lists.",
     ["source/options.c", "source/cloog.c"],
     [("parser", "source/options.c:cloog_options_read"), ("defaults", "source/options.c:cloog_options_malloc")],
     ["cloog_options_read", "the cloog program"],
     "TLA+ specification Options (a machine that consumes the command line and holds the settings): TLC enumerates "
     "command lines with their expected outcome, they are replayed into the real parser and the real program",
     "All command lines of up to 3 tokens groups over a reduced alphabet (BFS) and random longer ones (simulation).")
prop("C12", "A dumped input is an input file for the same program",
     "The text cloog_input_dump_cloog writes for an input - whatever notation it came from - is accepted by the reader "
     "and means the same program: same context, domains, scatterings, order of statements, names of parameters, "
     "iterators and scattering dimensions, output language. Empty domains, unions, existential variables and empty "
     "contexts included.",
     ["inputs"], "all inputs",
     "One unit test compares one dump textually.",
     ["source/input.c", "source/isl/domain.c"],
     [("dump", "source/input.c:cloog_input_dump_cloog, cloog_domain_print_constraints, "
       "cloog_scattering_print_constraints")],
     ["cloog_input_dump_cloog", "cloog_input_read"], TV, TN)
prop("C11", "A program built with library calls is the program the generator scans",
     "A program put together with the library - domains from matrices, from isl text or from cubes and bounds, "
     "scatterings from matrices or isl maps, statements added to a union domain one at a time or taken from an isl "
     "union map or union set, names given or left out, options set field by field - gives an AST that executes exactly "
     "that program: the instances of every statement in the order of their dates, under the statement's name and user "
     "pointer, with the parameters, iterators and language that were set. The order of independent calls makes no "
     "difference.",
     ["inputs", "histories"], "all programs and all orders of the calls that build them",
     "The suite drives the command line program; no test builds a program with the library except three fixed ones.",
     ["source/union_domain.c", "source/isl/domain.c", "source/isl/backend.c", "source/input.c", "source/names.c",
      "source/clast.c"],
     [("builder", "source/union_domain.c:cloog_union_domain_add_domain"),
      ("isl builders", "source/isl/domain.c:cloog_union_domain_from_isl_union_map"),
      ("matrices", "source/isl/domain.c:cloog_domain_from_cloog_matrix, cloog_scattering_from_cloog_matrix"),
      ("generator", "source/clast.c:cloog_clast_create_from_input")],
     ["cloog_clast_create_from_input", "cloog_program_generate"], TV, TN)
prop("C16", "Domains behave as sets of integer points",
     "Every operation on domains is the set operation it is documented to be, for all integer points and parameter "
     "values, and leaves the operands it does not consume unchanged: union, intersection, difference, extension, "
     "simplification in a context, projection and the hulls (which contain their operand, are convex and stay within "
     "its bounds), cutting the first piece, scattering. Answers to questions (empty, equal, convex, disjoint, bounded, "
     "executes at most once, constant, order of two domains) are never wrong in the direction the generator relies on, "
     "and sorting puts domains in an order compatible with every pair that can be compared.",
     ["inputs", "histories"], "all histories of operations on all domains",
     "No test calls these functions; the generated code shows their results only for a few domains.",
     ["source/isl/domain.c", "include/cloog/domain.h", "include/cloog/isl/domain.h"],
     [("operations", "source/isl/domain.c"), ("sort", "source/isl/domain.c:cloog_domain_sort")],
     ["cloog_domain_* of the library"],
     "TLA+ specification DomOps (the handles a caller holds as a state, library calls as actions on sets of integer "
     "points); histories of calls recorded from the real library are validated by TLC as behaviours of it",
     "Random histories of 12-18 calls over domains of 0-3 dimensions in a window, up to one parameter; the points of "
     "every handle a call touched are observed after it. Operations whose result is only bounded by its promise "
     "(projection, hulls, simplification) are checked against the promise and the observed value is carried on.",
     state=[("domain handle", "set of integer points, per parameter vector", "include/cloog/domain.h")])
prop("C14", "Results do not depend on history and nothing is leaked",
     "Whatever a caller did before and whatever else it holds - several states, options, inputs, programs and trees, "
     "made, used and freed in any allowed order - the result of every call depends only on the objects it is given: "
     "the tree or text it produces is the one the same input and settings give in a process of its own, calls change "
     "no settings except the documented ones (-l and the language of the file), trees survive the program, options "
     "and input they were made from, freeing everything in any order is safe, the state's counters of allocated "
     "objects balance and no memory is left behind.",
     ["histories", "inputs"], "all histories of calls over all inputs and settings",
     "Each test is one run of the program: read, generate, print, exit.",
     ["source/program.c", "source/clast.c", "source/input.c", "source/loop.c", "source/block.c", "source/statement.c",
      "source/state.c", "source/options.c", "source/names.c", "source/isl/domain.c"],
     [("ownership", "include/cloog/*.h: which call frees what"),
      ("generator", "source/program.c:cloog_program_generate"),
      ("tree", "source/clast.c:cloog_clast_create")],
     ["cloog_state_free", "cloog_program_free", "cloog_clast_free", "cloog_input_free", "cloog_options_free"],
     "TLA+ specification Lifecycle (what the caller holds, ownership, labels of results): TLC generates complete "
     "histories, they are replayed into the real library built with the address sanitizer, and TLC validates the "
     "recorded run (LifeTrace)",
     "250 random complete histories of 45 calls plus the frees that close them, each replayed three times in one "
     "process (results repeat, memory in use does not grow), over random programs in four files per history; the "
     "reference for each label is a process of its own.",
     state=[("what the caller holds", "states, options, inputs, programs, trees with what they were made from",
             "include/cloog/*.h")])
prop("C15", "Saved domains describe what is executed",
     "With the option to save domains, the domain attached to a user statement of the AST is exactly the set of "
     "values of the scattering dimensions for which it is executed, and the domain attached to a loop contains the "
     "dates of everything executed under it - for every program, parameter value and option that shapes the loops.",
     ["inputs"], "all programs with scatterings, options and parameter values",
     "No test looks at saved domains.",
     ["source/loop.c", "source/program.c", "source/clast.c", "source/isl/domain.c"],
     [("saving", "source/loop.c:loop_simplify"), ("tree", "source/clast.c")],
     ["clast_user_stmt.domain", "clast_for.domain"],
     "TLA+ specification SavedDom over Scan: TLC executes the AST the real code returns and compares what was "
     "executed at each node with the points of the domain saved there",
     "1450 random programs with scatterings, up to three parameter vectors each.")
prop("C17", "clast_filter finds exactly the loops asked for",
     "For every AST and every question - an iterator name or none; statement numbers, of which the loops are to have "
     "exactly these (exact) or only these (subset), or none - clast_filter returns exactly the loops of the tree that "
     "fit, wherever they are (inside other loops, guards and blocks, behind assignments), each once, and the numbers "
     "of all statements of the tree, each once.",
     ["inputs"], "all programs, options and questions",
     "No test calls it: parallelizing clients (through OpenScop) do.",
     ["source/clast.c", "include/cloog/clast.h"],
     [("traversal", "source/clast.c:clast_filter"), ("comparison of statement lists", "source/clast.c:list_compare")],
     ["clast_filter"],
     "TLA+ specification LoopFilter: TLC walks the AST the real code returns, collects the statements under every "
     "loop and compares the library's answers",
     "1800 random programs, 12 random questions each; the statement numbers in a question are distinct.")
prop("C18", "Annotated loops are printed as annotated and execute the same instances",
     "When loops of an AST carry the annotations of a parallelizer (parallel: OpenMP, MPI, vector, user directive; "
     "private and reduction variables; a timer), the printed C has, for every loop, the lines of its annotation in the "
     "right places - bounds computed first, pragma with its clauses directly in front of the loop, the loop running "
     "over these bounds with its own iterator and stride, the timer around it - and for everything else the lines it "
     "has without annotations; the program compiles and executes the same statement instances in an allowed order. "
     "Printed Fortran is not changed by annotations.",
     ["inputs"], "all programs, options and annotations (one level of parallelism of a kind per nest)",
     "No test annotates loops (the program only does with OpenScop).",
     ["source/pprint.c", "include/cloog/clast.h"],
     [("printing of loops", "source/pprint.c:pprint_for")],
     ["clast_pprint"],
     "TLA+ specifications Annot (the lines every construct of the annotated tree owes; TLC compares them with the "
     "real text) and TraceScan (the compiled text's execution)",
     "1100 random C programs and 120 Fortran programs with random annotations; run with one OpenMP thread and one "
     "MPI rank (a stand-in for polyrt_loop_dist); races between threads are the annotator's business.",
     state=[("annotations", "parallel, private_vars, reduction_vars, time_var_name, user_directive",
             "include/cloog/clast.h:struct clast_for")])
prop("C19", "Numbers of any size are handled exactly",
     "Constants of domains and scatterings may have any size (beyond 32, 64 and 128 bits, of either sign): the "
     "program is read (from a file, from matrices and isl objects given by library calls), the generated AST scans "
     "exactly its integer points in scattering order, the printed text has the exact numbers, and a dump of the input "
     "is read again as the same program - just as for small numbers.",
     ["inputs"], "all programs, moved to any place of the integer space; builds with GMP integers",
     "The suite has small numbers only.",
     ["source/isl/constraints.c", "source/isl/domain.c", "include/cloog/int.h", "source/clast.c", "source/pprint.c"],
     [("conversions", "source/isl/constraints.c:isl_val_to_cloog_int"),
      ("matrices", "source/isl/domain.c:isl_constraint_read_from_matrix")],
     ["cloog_input_read", "cloog_domain_from_cloog_matrix", "cloog_clast_create_from_input", "clast_pprint"],
     "TLA+ specifications AstScan and TraceScan: programs moved by a multiple of a huge unit; in the code generated "
     "for them every number n/d * unit + b is replaced by n/d * 720720 + b and TLC checks the run against the program "
     "moved by the small unit",
     "about 2700 random programs, units from 2^31 to 10^30, divisors up to 60; coefficients stay small.")
