prop("C01", "Built-in functions honour their declared interface",
     "Every built-in function of the language takes exactly the arguments its declared type gives it, treats each as a value of its declared type, looks into it only as deeply as the declared strictness has evaluated it, and always leaves a result of its declared result type (or a failure). No well-typed program can therefore make a built-in misread a value of one type as another, look into an unevaluated expression, or return without a result.",
     ["programs", "inputs"], "every well-typed call of every built-in, whatever the argument values and however lazily they were built",
     "The tests call a fraction of the built-ins with a few values each; a misread that needs an unusual path or an argument left unevaluated does not show up there.",
     ["src/bin/fl/symbol.c", "src/bin/fl/graph.c", "src/bin/fl/graph.h", "src/bin/fl/list_ops.c", "src/bin/fl/strings.c", "src/bin/fl/arithm.c",
      "src/bin/fl/bv.c", "src/bin/fl/fsm.c", "src/bin/fl/pexlif.c", "src/bin/fl/table.c", "src/bin/fl/io.c"],
     [("registration with strictness and type", "Add_ExtAPI_Function calls in the *_Install_Functions of src/bin/fl"),
      ("argument evaluation by strictness letter", "traverse_left, case P_EXTAPI_FN, src/bin/fl/graph.c"),
      ("node accessors", "src/bin/fl/graph.h")],
     technique="interprocedural type inference over the C implementation, against the type evaluated from the registration; path-correlated typestate of the redex",
     note="Decides types, arity, depth of evaluation and presence of a result for every registered built-in and every helper in calling context. Values whose tags the code inspects itself, polymorphic values and calls through function pointers are unconstrained.")
prop("C02", "Each graph-reduction step implements its built-in exactly",
     "Every built-in handled by the evaluator itself (combinators, conditionals, catch, strict and forced evaluation, caching, references and assignment, list and string primitives, arithmetic and Boolean primitives) takes only operands that are present, pops exactly those, and rewrites exactly that application to the value its law gives: S, K, B, C and their compound forms follow their equations, a conditional evaluates each branch only under its own condition, an operand that fails makes the application fail with that failure unless the built-in is the one that catches it, a cached function is looked up under exactly its arguments and the current condition, and every exit leaves the trace stack, the GC stack, the evaluation condition and the reference counts as it found them.",
     ["programs", "inputs", "histories"], "every application of every evaluator-level built-in, whatever the operands, including operands that fail at any point",
     "The tests reduce well-behaved programs; an unbalanced stack, a lost condition, a dropped failure or a missing reference only shows up on an unusual operand (usually a failing one) and often much later, in another reduction.",
     ["src/bin/fl/graph.c", "src/bin/fl/graph.h"],
     [("the reduction switch", "traverse_left, src/bin/fl/graph.c"), ("operand access", "GET_ARG1..4 and arg_failure labels, src/bin/fl/graph.c"),
      ("strictness letters", "traverse_left, case P_EXTAPI_FN"), ("keyed caching", "P_CACHE and Insert_infinite/finite caches, src/bin/fl/graph.c")],
     technique="disjunctive abstract interpretation of each case of the reduction switch over a symbolic heap of operand terms, compared with the law of the built-in",
     note="One reduction step at a time. The recursive evaluation of an operand is assumed to return with the stacks as it found them; the other built-ins' bodies are the subject of C01.")

prop("C05", "Decision-diagram operations compute the functions they are named for",
     "Whatever the operands, their complement bits and the order of their variables: negation, conjunction, disjunction, exclusive or and the derived connectives, if-then-else, universal and existential quantification, relational products, simultaneous substitution, dependency sets and cofactors return the diagram of exactly the Boolean function they are named for, no matter what was computed before (no cache entry is ever used for another operation or other operands); every node is kept canonical, so that two diagrams are equal exactly when their functions are; and exchanging variables in the order changes the function of no diagram.",
     ["inputs", "histories"], "every operand of every operation, every variable order and every earlier history of the caches",
     "Tests compare a few small functions; a wrong cache key, sign or level test shows up only for particular operand pairs, orders and histories, and then silently, as a wrong verification verdict.",
     ["src/bin/fl/new_bdd.c"],
     [("node construction", "find_insert_bdd"), ("binary operations and their cache", "bdd_step"), ("quantification", "quantify, Rel_prod"),
      ("substitution", "b_substitute"), ("dynamic reordering", "swap_down")],
     technique="abstract interpretation of each function over Boolean denotations, decided by truth tables on every path",
     note="Partial correctness of each function given the specifications of those it calls; termination, memory exhaustion and interrupts are not covered. Reordering strategy (which variables are exchanged) is irrelevant to the property.")
prop("C06", "Boolean-expression operations compute the functions they are named for",
     "Whatever the operands and their complement bits: the connectives on Boolean expressions, bITE, bEqual and the structure-wide gen_bAND, gen_bOR and gen_bNOT, substitution, and the conversions to and from decision diagrams (with or without a substitution) return an expression or diagram of exactly the function they are named for, independently of what was evaluated or converted before; operands that fail make the operation fail; two nodes are identified only when the solver has said they are equal, and each node's solver literal is constrained to the node's own function.",
     ["inputs", "histories"], "every operand expression, every combination of complement bits, every nesting and every earlier evaluation",
     "A lost complement bit, a stale memo entry or a static variable overwritten by a nested evaluation shows up only for particular nestings and histories; tests exercise straight-line uses.",
     ["src/bin/fl/bexpr.c"],
     [("node construction", "be_and, be_find_insert"), ("conversions", "be2bdd, bdd2bexpr"), ("substitution", "be_subst"), ("mapped operations", "bITE, bEqual, gen_b*"),
      ("equivalence by solver", "check_for_eq_with_SAT")],
     technique="abstract interpretation of each function over Boolean denotations with explicit complement bits, decided by truth tables on every path",
     note="Partial correctness of each function given the specifications of those it calls; minisat itself is trusted.")
prop("C07", "Simulation of word-level operations is correct and monotone",
     "For words of every width, every operation of the circuit simulator (constants, wires, bitwise operations, addition, subtraction, multiplication, division and remainder, comparisons, if-then-else, shifts by any amount, sign and zero extension, slices and slice updates, inertial delays, memory reads and writes) gives on known bits the word its arithmetic gives, as a pair of complementary rails per bit; on unknown bits it is monotone (less information on an input never yields more on an output, the lattice comparison excepted), and it stays inside its buffers. The connectives installed for each mode are the ones they stand for, those limited in size give the exact value or the unknown one and are put back after use, and each word expression (slices, concatenations and delays aside) is compiled to the operation of its constructor, with its operands in the order and of the width the operation reads, with every field set, and listed as a fanout of all its inputs.",
     ["inputs"], "every width, every word and every mixture of known, unknown and overconstrained bits",
     "Tests simulate a few widths and values; a wrong carry, fill bit, address line or rail shows up only for particular widths or partly unknown words, and a loss of monotonicity turns into an unsound verification verdict.",
     ["src/bin/fl/fsm.c"],
     [("operations", "op_* and their helpers"), ("connectives", "switch_to_BDDs, switch_to_bexprs, BDD_c_limited_*"), ("compilation", "compile_expr, is_binary_wexpr, is_relation_wexpr")],
     technique="parametric abstract interpretation: closed-form loop summaries over symbolic widths, decided by truth tables and by products of finite transducers",
     note="The result of each operation is decided for all widths at once. Integers are taken as unbounded, except for values that double with every bit. Operand sizes are those of a well-formed word expression. The compilation of slices, concatenations and delays is not decided.")
prop("C08", "Trajectory evaluation applies and checks exactly the constraints given",
     "For every circuit and every list of weakenings, antecedents and consequents: each entry with a non-empty interval constrains its node, with the rails of its condition and value, from its start up to its end and at no other time, independently of any other entry on the same node that starts or ends meanwhile; inconsistent entries are accumulated in the verdict and entries on unknown nodes make the run fail. At each time a node's two rails are (computed value or weakening) and antecedent, delayed nodes take their value of the previous phase, inputs are unknown unless constrained; every operation whose inputs changed is evaluated again until nothing changes, and a circuit that does not settle gives a failure, not a result. Every consequent in force is checked on both rails after the circuit has settled. Each result flag gives the combination of the four accumulated conditions that it is named for, and a run depends on nothing left by an earlier one.",
     ["inputs", "histories", "schedules"], "every circuit, every list of constraints with any overlap of intervals, every order of evaluation and every earlier run",
     "A verdict is a proof: one forgotten or misplaced constraint or one operation not re-evaluated makes a false theorem hold or a true one fail, only for particular overlaps of intervals or feedback in the circuit, which the tests do not contain.",
     ["src/bin/fl/fsm.c"],
     [("constraints to events", "create_event_buffer, event_cmp"), ("events to what is in force", "process_event, add_active_event, delete_active_event"),
      ("values", "update_node, do_phase, do_wl_op"), ("scheduling", "add_op_todo, do_combinational, initialize"), ("time steps and checks", "gSTE"), ("verdict", "gen_get_ste_result")],
     technique="path summaries over symbolic terms with loops in closed form; obligations on every path, value formulas compared by truth table",
     note="Decides each function of the engine against its part of the semantics; that the parts together give the trajectory semantics is argued in DESIGN.md. Recorded traces, dynamic weakening, stop nodes and abort options are not part of the property; a run cut short by them or by an interrupt reports what it reached.")
prop("C04", "Each operation leaves the interpreter's own state as it found it",
     "Whatever its arguments and whichever way it ends, a built-in leaves the state it set up for its own duration as it was: every node and decision diagram it protected from garbage collection is released, every string, type checking, simulation, trace and table context it entered is left, exactly once and not before its last use; the current circuit and the current evaluation are set up whenever they are used, never while expressions of the user are evaluated or another set-up of the same kind is made, and taken down to exactly what was saved; after a failure caught by the evaluator the evaluation context is the one of the catching expression; tables, buffers and files an operation owns are released, and settings and signal handlers it changes are put back, on the failing ways out as on the others.",
     ["inputs", "histories"], "every argument, every failing way out and every sequence of operations",
     "A context left or a protection not released on one failing path goes unnoticed by the call that fails and breaks an unrelated operation later: a memory that fills up, a circuit looked up in another circuit, an assertion in the next call.",
     ["src/bin/fl/fsm.c", "src/bin/fl/graph.c", "src/bin/fl/voss_strings.c", "src/bin/fl/pexlif.c", "src/bin/fl/system.c"],
     [("string contexts", "Begin_string_ops, End_string_ops"), ("circuit and evaluation", "push_fsm_env, push_ste"), ("protection", "PUSH_GLOBAL_GC, PUSH_BDD_GC"),
      ("evaluation contexts and failures", "traverse_left, call_fl"), ("local tables and buffers", "create_hash, new_buf")],
     technique="interprocedural depth analysis (path-correlated data flow with per-result contracts, jumps included) and ownership of local resources",
     note="Calls through pointers are taken to change no depth; aborts to the top level may leave protections and contexts, which the top level resets. Resources an operation never releases on any way out are not reported.")
prop("C09", "Memory in use is never reclaimed",
     "A node of the graph is recycled only when nothing refers to it any more: in every function that builds or takes apart graph values on behalf of a built-in, each reference stored in a node or handed out in a result is counted (the node is new, its count is incremented for it, or the reference is taken over from a node being overwritten), no reference is given up that the function does not have, and no node is looked into, referred to or released again after the last reference known to the function was given up.",
     ["inputs", "histories"], "every value, every sharing between the arguments and every later allocation",
     "A reference that is not counted has no effect until the node is recycled while still in use; then some unrelated value changes. That takes a particular sharing and many later allocations, so tests pass.",
     ["src/bin/fl/graph.c", "src/bin/fl/list_ops.c", "src/bin/fl/fsm.c", "src/bin/fl/pexlif.c", "src/bin/fl/bexpr.c", "src/bin/fl/bv.c", "src/bin/fl/bev.c", "src/bin/fl/table.c"],
     [("reference counts", "INC_REFCNT, dec_ref_cnt, OVERWRITE"), ("results built from parts of arguments", "list_ops.c, pexlif.c, fsm.c, bv.c, bexpr.c")],
     technique="interprocedural reference-count analysis: symbolic balances per value along every path, summaries to a fixpoint",
     note="The reduction switch itself is C02's. Values kept in records, tables and external objects are taken to be kept alive by their owners; marking by the garbage collector is not covered; functions with too many states (listed in the evidence) are not decided.")
