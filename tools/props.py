S, R_, C, H, PA, PR, B, PP = ("opt_einsum/sharing.py", "opt_einsum/path_random.py", "opt_einsum/contract.py", "opt_einsum/helpers.py",
                              "opt_einsum/paths.py", "opt_einsum/parser.py", "opt_einsum/blas.py", "opt_einsum/backends")

prop("C01", "Sharing contexts nest per thread and always unwind",
     "Inside a shared-intermediates block the innermost block's cache of the calling thread (the very object the caller supplied, even if empty, or a fresh one) is in use; other threads "
     "are unaffected. Leaving the block, normally or through any exception, removes exactly that cache: enclosing blocks of the thread stay active, and after the "
     "outermost one the thread is no longer sharing.",
     ["histories", "schedules", "fault_sequences"], "every nesting of blocks, every interleaving of threads, every exit (normal, exception, generator close)",
     "Tests enter a few blocks on a few threads and leave them normally; they cannot enumerate nestings, thread interleavings and exception exits.",
     [S], [("stack of caches per thread", "opt_einsum/sharing.py: currently_sharing, get_sharing_cache"), ("context manager", "opt_einsum/sharing.py: shared_intermediates")],
     "typestate and effect analysis of the context manager", "Every entry/exit effect of the context manager is matched against the exception structure and evaluated for each nesting depth.",
     observe=["shared_intermediates(), currently_sharing(), get_sharing_cache()"])

prop("C02", "A shared intermediate is reused only for the same operation",
     "Within a sharing block, a stored result is returned only for the same operation on the same array objects with equivalent subscripts, axes, backend and options; every other "
     "request is computed with exactly the arguments given. An array whose identity is part of a stored key stays alive as long as the entry can be found.",
     ["histories", "inputs"], "every sequence of contractions, transpositions, tensordots and conversions issued while sharing, for all operands and options",
     "A test only meets a few call sequences; a colliding key or a recycled identity needs a particular history.",
     [S], [("memoised einsum/transpose/tensordot", "opt_einsum/sharing.py: *_cache_wrap"), ("memoised conversions", "opt_einsum/sharing.py: to_backend_cache_wrap")],
     "key-completeness (information-flow) analysis of memoising wrappers", "Each store into the sharing cache is shown to have a key from which all inputs of the stored value can be recovered.",
     observe=["results of contract() inside shared_intermediates()"])

prop("C05", "An index survives a step exactly while it is still needed",
     "In every contraction step, an index of the contracted terms is kept in the result exactly when it occurs in the requested output or in a term not yet contracted, and is summed "
     "away otherwise. This holds for the executed plan and for the cost bookkeeping of every path search (exhaustive, branching, greedy, dynamic programming, random).",
     ["inputs", "configurations"], "all expressions (any number of terms, repeated, shared, batch and output-only indices), all paths and all optimizers",
     "Tests sample expressions; wrong retention shows only for particular overlaps of indices between terms, output and remaining terms.",
     [H, PA, R_], [("index sets of a step", "opt_einsum/helpers.py: find_contraction"), ("pairwise result", "opt_einsum/paths.py: calc_k12_flops"),
                   ("greedy candidates and reference counts", "opt_einsum/paths.py: _get_candidate, _update_ref_counts, ssa_greedy_optimize"),
                   ("dynamic programming legs", "opt_einsum/paths.py: _dp_calc_legs, _dp_parse_out_single_term_ops, DynamicProgramming")],
     "set-algebra membership tables over value-flow terms", "The set expression computed at each site is compared with its definition for one arbitrary index over all membership cases.",
     observe=["contract_path() step descriptions; contract() results"])

prop("C14", "A search's best path is coherent and only replaced by a better one",
     "Whatever order candidates are met in, the best path an optimizer keeps is replaced only by one that is strictly better under the chosen objective (fewest flops then smallest intermediate, or the reverse), "
     "its recorded flops, size and path always belong together, and repeated calls never lose it. The path returned is the recorded best; every random trial's cost and size are logged.",
     ["inputs", "histories"], "all contractions, all candidate orders, all sequences of calls on one optimizer instance, both objectives",
     "Tests compare a few final costs; a record mixing two candidates or replaced by a worse one needs a particular candidate order.",
     [PA, R_], [("comparison by objective", "opt_einsum/paths.py: get_better_fn"), ("exhaustive search record", "opt_einsum/paths.py: optimal"),
                ("branching search record", "opt_einsum/paths.py: BranchBound"), ("random trials record", "opt_einsum/path_random.py: RandomOptimizer"),
                ("dynamic programming tables", "opt_einsum/paths.py: _dp_compare_*")],
     "guard dominance over order relations; record coherence", "Every write to a best-so-far record is shown to replace all fields together under a condition that holds only for strictly better candidates.",
     observe=["optimizer.best, .costs, .sizes and the returned path"])

prop("C08", "memory_limit is honoured by every search and reaches it unchanged",
     "A limit given to contract, contract_path or contract_expression reaches the chosen search unchanged in meaning (None and -1: no limit; 'max_input': the largest input or output; anything "
     "else invalid is refused). A search given a limit creates no pairwise intermediate larger than the limit while an alternative exists (branching, dynamic programming, greedy, exhaustive); when none exists it "
     "contracts all that remains in a single step. Without a limit nothing is restricted.",
     ["inputs", "configurations"], "all contractions, all sizes and limits (none, below, equal, above), all strategies taking a limit",
     "Tests try a few limits on a few expressions; a guard using the wrong size, comparison or branch only matters for particular size/limit relations.",
     [PA, C, R_], [("limit normalisation", "opt_einsum/contract.py: _choose_memory_arg, contract_path"), ("guards", "opt_einsum/paths.py: optimal, BranchBound, greedy, _dp_compare_*, DynamicProgramming"),
                   ("oversize fallback", "opt_einsum/paths.py: _compute_oversize_flops, ssa_to_linear")],
     "guard dominance and parameter plumbing over value-flow terms", "Every commit point of a search is dominated by a comparison of the created tensor's size with the limit, evaluated for all size/limit relations.",
     observe=["contract_path(..., memory_limit=...)"])

prop("C16", "Strategy names select the documented search in any letter case",
     "A strategy name given as `optimize`, or registered by a user, selects exactly the documented search whatever its letter case; an unknown name, or registering a taken name, is refused and changes nothing. "
     "'auto' and 'auto-hq' choose for every number of terms a search of their documented ladder. True means 'auto', False means no optimization (one contraction of all operands at once), a given path or optimizer "
     "object is used as it is.",
     ["inputs", "histories", "configurations"], "every strategy name and spelling, every number of terms, every order of registrations",
     "Tests try the listed names on small expressions; table gaps and aliasing only show for particular term counts, spellings or registration orders.",
     [PA, R_, C], [("registry", "opt_einsum/paths.py: register_path_fn, get_path_fn, _PATH_OPTIONS"), ("ladders", "opt_einsum/paths.py: auto, auto_hq, _AUTO_CHOICES"),
                   ("use of optimize", "opt_einsum/contract.py: contract_path")],
     "constant propagation over tables and registry typestate", "Tables are evaluated for all term counts; keys stored and looked up are compared modulo case folding.",
     observe=["contract_path(optimize=...), register_path_fn"])

prop("C06", "Plan and execution take the same operands in the same order",
     "At every step of a plan the operands contracted are exactly those the path names, removed from the same positions of the planner's terms, index sets and shapes and of the executor's operands, "
     "highest position first, and the result goes to the end. The recorded equation lists the terms in the order the executor passes them; the last step produces the requested output order. Evaluating "
     "constants first stops at the first step with a missing operand and hands on the rest unchanged.",
     ["inputs", "configurations"], "all expressions, all paths (any step arity and order of positions), with and without constants",
     "Tests run paths where a wrong order often gives the same result (symmetric or commuting operands); the bookkeeping has to agree for every path.",
     [C, H], [("planner", "opt_einsum/contract.py: contract_path"), ("executor", "opt_einsum/contract.py: _core_contract"), ("remaining terms", "opt_einsum/helpers.py: find_contraction")],
     "lock-step value-flow analysis of parallel lists", "The update of every parallel list in one arbitrary step is extracted and compared, including order of removal and place of insertion.",
     observe=["contract(..., optimize=path), contract_path()"])

prop("C07", "A step done by tensordot computes the same contraction as einsum",
     "A step is handed to tensordot only when every index of the pair is either kept and in one operand or removed and in both, without repeated or broadcast indices, and no einsum option "
     "is given. The axes passed pair each removed index with itself, and the result is transposed exactly to the recorded order (axes being a pair of tuples even if nothing is summed); otherwise einsum is used with the recorded equation and all options. Conversely, an eligible step without options goes to tensordot, and so does an outer product where the backend has no einsum.",
     ["inputs", "configurations"], "all pairs of index strings and result orders, all shapes, all backends with or without einsum, all options",
     "Tests sample equations; eligibility errors only show for particular overlaps (repeats, batch indices, broadcast dimensions, orders).",
     [C, B, H], [("eligibility", "opt_einsum/blas.py: can_blas"), ("route and axes", "opt_einsum/contract.py: _core_contract")],
     "membership and order tables over value-flow terms", "The eligibility function is evaluated for every class of index occurrence; axes and permutation terms are matched with their definitions.",
     observe=["contract() results, blas column of contract_path()"])

prop("C09", "An output array given by the caller receives the result and is returned",
     "When `out` is given to contract, or to an expression's call, exactly that array is filled with the final result (and no intermediate one), its whole content is replaced for any number of "
     "dimensions including none, and it is the object returned, whichever way the last step is done (einsum, tensordot with or without transposition, torch, optimize=False). Without `out` a new result is returned.",
     ["inputs", "configurations"], "all expressions and paths, all shapes including scalars, all routes of the last step",
     "Tests give `out` on a few equations; a route that drops or half-fills it depends on which kernel the last step uses.",
     [C, PP], [("executor", "opt_einsum/contract.py: _core_contract, _einsum, _tensordot, _transpose"), ("expressions", "opt_einsum/contract.py: ContractExpression"),
               ("torch", "opt_einsum/backends/torch.py: einsum")],
     "must-flow (argument routing) analysis over value-flow terms", "On every route the given array is shown to be handed on or filled at the last step only, and to be the value returned.",
     observe=["contract(..., out=arr) and expr(..., out=arr)"])

prop("C22", "Internal tables never change an answer",
     "Looking something up in an internal table (sub-results of the exhaustive searches, remembered functions of backends, backend capabilities, compiled expressions per backend) gives what computing it afresh for "
     "the same request would give: different requests never share an entry, and a fallback supplied by one caller is never handed to another.",
     ["histories", "inputs"], "all sequences of requests to one table, all contractions with coinciding index sets",
     "A test meets a table empty or with a few entries; collisions need two particular requests in one history.",
     [PA, C, PP], [("search sub-results", "opt_einsum/paths.py: optimal, BranchBound"), ("function lookup", "opt_einsum/backends/dispatch.py: get_func, has_einsum, has_tensordot"),
                   ("compiled expressions", "opt_einsum/contract.py: ContractExpression")],
     "key-completeness (information-flow) analysis of memo tables", "Every store under a looked-up key is found by shape; each varying input of the stored value must be recoverable from the key.",
     observe=["contract_path() and contract() results across histories"])

prop("C23", "Shared and constant work is done once",
     "Inside a sharing block a request for an operation that was carried out before (same arrays and backend; for einsum whatever the order of the operands and the names of the indices, for tensordot whichever form the axes are given in) is answered from the cache without "
     "computing again, and every contraction step and array conversion takes part. A contraction expression evaluates its constants and builds its backend-specific function once per backend; later calls reuse them.",
     ["histories", "inputs"], "all sequences of requests inside one sharing block, all sequences of calls of one expression",
     "Losing the reuse changes no result, only the work; a test has to count operations for the particular pair of requests that should have met.",
     [S, C], [("memoising wrappers", "opt_einsum/sharing.py: transpose_cache_wrap, tensordot_cache_wrap, einsum_cache_wrap, to_backend_cache_wrap, _memoize"),
             ("expressions", "opt_einsum/contract.py: ContractExpression._get_evaluated_constants, _get_backend_expression, evaluate_constants")],
     "path (hit/miss) analysis of the memoising wrappers and evaluation of their keys at equivalent requests", "Under the facts of a hit no path reaches the operation; results are stored under the key looked up; equivalent requests are shown to have equal keys at points.",
     observe=["number of backend operations and conversions carried out", "keys of the cache yielded by shared_intermediates()"])

prop("C24", "Every search returns a path that contracts each tensor exactly once",
     "For any contraction, every path search (exhaustive, branching, greedy, dynamic programming, random trials, tree-based) returns a path whose steps name tensors still present, use each input and "
     "each intermediate exactly once and leave one result, including single tensors, disconnected parts and outer products; choosing randomly never loses another candidate. Conversions between "
     "position-based and identifier-based paths describe the same contractions.",
     ["inputs", "configurations"], "all numbers of tensors and index structures, all choosers and options, all paths converted",
     "Tests sample contractions; a step reusing or dropping a tensor needs a particular number of terms or connectivity.",
     [PA, R_], [("path conversions", "opt_einsum/paths.py: ssa_to_linear, linear_to_ssa"), ("greedy search", "opt_einsum/paths.py: ssa_greedy_optimize, _simple_chooser"),
                ("exhaustive and branching search", "opt_einsum/paths.py: optimal, BranchBound"), ("dynamic programming", "opt_einsum/paths.py: DynamicProgramming, _tree_to_sequence"),
                ("random chooser", "opt_einsum/path_random.py: thermal_chooser")],
     "ownership (linear use) analysis over value-flow terms", "Each search's worklist is treated as linear resources: every step recorded consumes what it names and adds one new tensor; loops end only with one left.",
     observe=["contract_path() result for every optimize= value; optimizers called directly"])

prop("C10", "Renaming indices never merges two indices nor splits one",
     "Wherever index labels are replaced by other symbols (numbers to letters, interleaved labels, symbols invented for ellipses, translation of exotic symbols for a backend, canonical renaming of shared "
     "expressions), different labels get different symbols, one label gets one symbol throughout the whole equation (all operands and the output together), and the punctuation stays. Invented symbols avoid every symbol in use.",
     ["inputs", "configurations"], "all equations, any number of indices (beyond 52 and beyond the surrogate range), any hashable labels",
     "Tests use a handful of labels; two labels collide only past a certain count or for particular symbols.",
     [PR, C, S], [("numbers to symbols", "opt_einsum/parser.py: get_symbol, gen_unused_symbols"), ("valid characters", "opt_einsum/parser.py: convert_to_valid_einsum_chars, alpha_canonicalize"),
                  ("interleaved input", "opt_einsum/parser.py: convert_interleaved_input"), ("ellipses", "opt_einsum/parser.py: parse_einsum_input")],
     "injectivity analysis of renaming tables over value-flow terms", "The pieces of the number-to-symbol function are compared as intervals; every renaming table must map distinct keys to strictly increasing arguments and be applied to the whole equation.",
     observe=["contract() and contract_path() with many, exotic or interleaved labels"])

prop("C11", "Malformed requests are refused and well-formed ones are not",
     "No malformed request yields a result: an equation with a broken arrow or ellipsis, an output index repeated or absent from the operands, a number of operands, ranks or sizes that do not fit the equation, arrays where "
     "shapes are announced, an explicit path that does not end in the output, unknown options, optimizers, objectives or memory limits, a wrong number of arrays for an expression. Broadcast sizes of 1 and all other well-formed requests are accepted.",
     ["inputs", "configurations"], "all equations, operands, shapes, paths and options",
     "Tests raise each error once; a class of malformed input that slips through computes something silently.",
     [PR, C, PA, R_], [("equation", "opt_einsum/parser.py: parse_einsum_input"), ("sizes, path, options", "opt_einsum/contract.py: contract_path, contract_expression, ContractExpression.__call__, _choose_memory_arg"),
                   ("optimizers", "opt_einsum/paths.py: get_path_fn, register_path_fn, BranchBound; opt_einsum/path_random.py: RandomOptimizer")],
     "path-condition analysis (abstract evaluation of guards per class of request)", "For each class of malformed request the guards on the way to the result are evaluated; a class that no guard tells from its well-formed neighbour gets through.",
     observe=["exceptions of contract(), contract_path(), contract_expression()"])

prop("C12", "An ellipsis stands for the unnamed dimensions, aligned from the right",
     "In every operand an ellipsis stands for exactly the dimensions that are not named; dimensions of different operands correspond from the last one backwards; the output's ellipsis is that of the "
     "longest. Without an explicit output, the result has the ellipsis dimensions first and then, alphabetically, the indices that occur exactly once. The unoptimized route agrees.",
     ["inputs"], "all equations with or without ellipsis and output, all ranks including operands without dimensions",
     "Tests use few rank combinations; misalignment shows only when operands have ellipses of different lengths.",
     [PR, C], [("ellipses", "opt_einsum/parser.py: parse_einsum_input"), ("implicit output", "opt_einsum/parser.py: find_output_str"), ("unoptimized route", "opt_einsum/contract.py: _einsum")],
     "case evaluation of slices and counts over value-flow terms", "The count of each ellipsis is evaluated over ranks and named indices, the slice of the symbol pool over the sign classes of that count.",
     observe=["contract() and contract_path() with ellipses"])

prop("C13", "The path information describes the path that is executed",
     "The path returned with the path information is the path that was analysed and that contract() would execute; the information holds one entry per step (equation, remaining terms, kernel, number of indices, size of the "
     "result), its cost is the sum of the steps' operation counts, the naive cost that of one step over all terms, the largest intermediate the maximum of the result sizes, the speed-up their quotient (also for a cost of 0 and a path without steps), and the printed summary shows those numbers under their labels.",
     ["inputs", "configurations"], "all contractions and paths, including explicit, empty and single-step paths, and scalar operands",
     "Tests check the numbers of a few contractions; a wrong entry shows only for particular step kinds (outer products, several terms at once, no steps).",
     [C], [("per-step bookkeeping", "opt_einsum/contract.py: contract_path"), ("path information", "opt_einsum/contract.py: PathInfo")],
     "must-flow analysis over value-flow terms", "Every field, total and printed number is traced to the step data it must be computed from.",
     observe=["contract_path()[1]: opt_cost, naive_cost, scale_list, size_list, largest_intermediate, speedup, print()"])

prop("C26", "Every search scores a step with the documented cost of that step",
     "The size of an intermediate is the product of its indices' sizes; the operation count of a step is the product over all its indices, times the number of terms less one (at least one), plus one such product if an index is summed. "
     "The cost a search accumulates, records or compares is the sum of its steps' counts and its size their largest result, including the part already contracted when an oversized rest is done at once; the greedy score is the size added less the sizes freed "
     "(times a jitter of mean one); dynamic programming accumulates flops, size, write, combo-N and limit-N as documented.",
     ["inputs", "configurations", "histories"], "all contractions, searches, objectives and memory limits",
     "Tests compare a few chosen paths; a wrong term in a cost formula still gives valid paths and correct numbers, only silently worse ones.",
     [H, PA, R_], [("cost primitives", "opt_einsum/helpers.py: compute_size_by_dict, flop_count"), ("pair and rest", "opt_einsum/paths.py: calc_k12_flops, _compute_oversize_flops"),
      ("running totals", "opt_einsum/paths.py: optimal, BranchBound; opt_einsum/path_random.py: ssa_path_compute_cost"), ("objectives", "opt_einsum/paths.py: _dp_compare_*, _parse_minimize, cost_memory_removed")],
     "value analysis of cost formulas against the documented ones", "Each formula is reduced to a term over classified index-set sizes and running totals and evaluated at separating points.",
     observe=["paths chosen by contract_path(optimize=...)", "RandomOptimizer.costs, .sizes, BranchBound.best, flop_count(), compute_size_by_dict()"])

prop("C27", "The searches that promise the best of a space overlook nothing in it",
     "The exhaustive search tries every pair at every step and gives one up only if its running cost is not below the best path's, or its result exceeds the memory limit; so the path it returns has the fewest operations of all. "
     "Dynamic programming combines every two disjoint parts sharing an index (or any, if outer products are asked for), keeps the cheapest result per set of tensors, does not give up below the naive cost of its objective (indices of size zero included), but, for the built-in objectives, does give up beyond it, however large the network. The branching search explores exactly the `nbranch` "
     "best candidates of each step (all if None), dropping only those not better than the best, beyond the cut-off factor, or over the limit.",
     ["inputs", "configurations"], "all contractions, sizes, objectives and limits",
     "Tests compare costs with brute force for a few small contractions; a split or pair that is skipped only matters for particular networks.",
     [PA], [("exhaustive search", "opt_einsum/paths.py: optimal"), ("branching search", "opt_einsum/paths.py: BranchBound"), ("dynamic programming", "opt_einsum/paths.py: DynamicProgramming, _dp_compare_*")],
     "completeness of the enumeration by local conditions", "Enumerated pairs, skip conditions, early exits and store conditions are read from the source and evaluated where a better path is still possible.",
     observe=["contract_path(optimize='optimal' | 'dp' | 'branch-*')"])

prop("C15", "An optimizer object that remembers results refuses another contraction",
     "An optimizer object keeps what it found per instance and, once called, refuses any call for another contraction (other terms, output or sizes) before it touches its state, even if the caller has meanwhile modified the containers passed first; "
     "a call for the same contraction is accepted and continues the search. Optimizers that keep nothing between calls accept anything.",
     ["histories"], "all sequences of calls of one optimizer object or of several",
     "A test calls one optimizer twice with two particular contractions; state that leaks between instances, a comparison that leaves one argument out, or one that aliases the caller's containers only shows in particular sequences.",
     [PA, R_], [("argument check", "opt_einsum/path_random.py: RandomOptimizer, opt_einsum/paths.py: PathOptimizer._check_args_against_first_call"), ("state", "opt_einsum/paths.py: BranchBound; opt_einsum/path_random.py: RandomOptimizer")],
     "typestate of optimizer objects", "Effects on the object are collected for each class and ordered against the comparison with the remembered arguments, which is evaluated for first, same and different calls.",
     observe=["RandomGreedy()(inputs, output, size_dict)", "BranchBound()(inputs, output, size_dict)"])

prop("C19", "A random search runs the same reproducible trials whether serial or parallel",
     "The trials of one call are numbered on from those of earlier calls, starting with 0, and without a time limit all `max_repeats` of them are run. What a trial returns depends only on its number, the contraction and the optimizer's settings: it seeds the generator with its number "
     "before drawing, trial 0 is the plain greedy search, and it leaves nothing behind in its process. A parallel search evaluates the same trials as a serial one, each once, and takes their results in the same order; so it finds the same costs and the same best path.",
     ["schedules", "histories"], "all executors, numbers of workers, pre-dispatch sizes and sequences of calls",
     "Tests compare a few parallel runs for success only; lost, repeated or differently seeded trials just give a somewhat worse path.",
     [R_, PA], [("numbering and consumption", "opt_einsum/path_random.py: RandomOptimizer.__call__"), ("parallel results", "opt_einsum/path_random.py: RandomOptimizer._gen_results_parallel"), ("trial", "opt_einsum/path_random.py: _trial_greedy_ssa_path_and_cost")],
     "sibling agreement and queue balance", "Both ways of running are reduced to (numbers, function, arguments); the queue of futures is balanced and drained; the closure of a trial has no other source of randomness or shared state.",
     observe=["RandomGreedy(parallel=...)(inputs, output, size_dict)", "RandomGreedy.costs"])
prop("C20", "An optimizer shuts down the worker pools it created and no others",
     "`parallel=True` or a number creates a pool (of that many workers) that the optimizer owns; it is shut down when the setting is replaced and when the optimizer goes, and only then. An executor supplied by the caller is used as it is and never shut down. "
     "`parallel=False` uses no pool. When a search ends early its pending trials are cancelled, and the pool stays usable for the next call.",
     ["histories", "schedules"], "all sequences of settings, calls and deletions",
     "Tests set `parallel` once or twice; a leaked pool or a caller's executor shut down behind its back shows only in particular sequences.",
     [R_], [("setting", "opt_einsum/path_random.py: RandomOptimizer.parallel"), ("deletion", "opt_einsum/path_random.py: RandomOptimizer.__del__"), ("cancellation", "opt_einsum/path_random.py: RandomOptimizer._cancel_futures")],
     "typestate of the worker pool", "Event streams of setter, destructor and call are run over abstract states (no pool, own pool, caller's executor) for every kind of setting.",
     observe=["RandomGreedy(parallel=executor)", "RandomGreedy.parallel = ..."])

prop("C21", "What an expression returns does not depend on its earlier calls",
     "The result of calling a ContractExpression depends on the arrays and options of that call and on its construction only: not on which backends it was called with before, how often and in which order constants were evaluated (for one backend or several, explicitly or by calls), "
     "calls that failed, or calls running at the same time. Remembered constants and compiled functions are kept per expression and per backend and never hold arrays of a call; any choice of constants, all operands included, gives the result of the plain contraction.",
     ["histories", "schedules"], "all sequences and interleavings of calls and evaluations of one expression, all backends and choices of constants",
     "Tests call an expression once or twice with one or two backends; what leaks between calls needs particular sequences or interleavings.",
     [C, "opt_einsum/backends/dispatch.py", "opt_einsum/backends/tensorflow.py", "opt_einsum/backends/torch.py"], [("expression", "opt_einsum/contract.py: ContractExpression"), ("evaluation of constants", "opt_einsum/contract.py: _core_contract, ContractExpression.evaluate_constants"), ("compiled functions", "opt_einsum/backends/*.py: build_expression")],
     "effect and ordering analysis of expression objects", "All writes to the object after construction are collected and must be keyed or come from one evaluation in publication order; the operands and steps of a call are evaluated for all states of the remembered constants.",
     observe=["ContractExpression.__call__", "ContractExpression.evaluate_constants"])

prop("C04", "What the caller passes in is never modified",
     "Planning and contracting leave every object of the caller as it was: operand arrays, the sequences and sets of indices, size dictionaries, paths given as lists, constants, options and keyword dictionaries, whether they are passed to the contraction functions, to path functions and optimizers directly, to expressions, "
     "to the parsing, cost and BLAS helpers or to a backend's functions. The only objects written to are those the call created, the optimizer or expression called, and the array given as `out`.",
     ["inputs", "histories"], "all arguments of the public functions, all kinds of containers they may be given in, all later uses by the caller",
     "Tests pass fresh literals and look at the result only; a modified argument shows when a caller uses it again.",
     [C, PA, R_, PR, H, B, PP], [("contraction", "opt_einsum/contract.py: contract, contract_path, contract_expression, ContractExpression, _core_contract"), ("searches", "opt_einsum/paths.py, opt_einsum/path_random.py"), ("parsing", "opt_einsum/parser.py: parse_einsum_input, convert_interleaved_input"), ("backends", "opt_einsum/backends/*.py")],
     "ownership and effect analysis over the call graph", "Every write reachable from a public entry point is resolved to the objects it may reach; none may be an argument or a part of one.",
     observe=["arguments of contract, contract_path, contract_expression, path functions, optimizers, parser, helpers, backends"])

prop("C28", "No path of the package fails by construction",
     "Whatever backend, option or branch is reached, in every installed configuration, the code that runs can run: every name it uses is bound when it is used, every call fits the function, method, class or callback it reaches (those kept in tables and passed as arguments included), members and attributes it reads exist, results are unpacked into as many parts as they have, "
     "and messages are formatted with the fields they need. A documented error is raised as itself, never replaced by a NameError, TypeError or AttributeError of the package's own code.",
     ["inputs", "configurations"], "all branches of all functions, including those for libraries, library versions and modes that are not installed, and error branches",
     "Branches for libraries that are not installed, old library versions, graph mode, and most error branches are never run by the tests.",
     [C, PA, R_, PR, H, B, S, PP, "opt_einsum/testing.py"], [("backends", "opt_einsum/backends/*.py"), ("strategy and backend tables", "opt_einsum/paths.py: _PATH_OPTIONS, opt_einsum/backends/dispatch.py"), ("callbacks", "opt_einsum/paths.py: ssa_greedy_optimize, opt_einsum/sharing.py: _memoize")],
     "name, definite-assignment and signature analysis of the whole package", "Every name, call, member, attribute, unpacking and format string is resolved as far as the source determines it and compared with what it reaches.",
     observe=["every public function; backends/*.py"])

prop("C17", "Every backend computes the contraction it was asked for",
     "With `backend=X` given, for each supported library X in each of its modes: functions are taken from X's own numpy-like module; an expression called with numpy arrays (and only then) converts all operands, in order, to X, contracts them with X and returns a numpy array (where no backend is named, X is the library of the first array, or numpy if that has no tensordot); constants are converted and evaluated with X and come back in their "
     "places with their values, missing operands staying missing; objects that already belong to X are passed through; graphs compiled for one call's arrays take the next call's. The adapters mean what numpy's functions mean: torch `transpose`, `einsum` and `tensordot` (whether or not torch has its own), and the element-wise loop for arrays of objects, "
     "broadcasting of size-1 dimensions included.",
     ["inputs", "configurations"], "all operands, constants, shapes and axes, in all libraries, modes (eager, graph) and versions, installed or not",
     "Most libraries, modes and versions are not installed where the tests run, so whole branches are never executed; the others are sampled with a few fixed expressions.",
     [f"opt_einsum/backends/{x}.py" for x in ("dispatch", "cupy", "jax", "tensorflow", "theano", "torch", "object_arrays")],
     [("tables", "opt_einsum/backends/dispatch.py: CONVERT_BACKENDS, EVAL_CONSTS_BACKENDS, _aliases, _cached_funcs"), ("conversion", "opt_einsum/backends/*.py: to_*, build_expression, evaluate_constants"), ("adapters", "opt_einsum/backends/torch.py: einsum, tensordot, transpose; opt_einsum/backends/object_arrays.py: object_einsum")],
     "sibling agreement over backends", "Builder, evaluator and converter of every entry of the tables are reduced to terms per mode and compared with one contract; adapters are matched with the definition of the numpy function.",
     observe=["contract(..., backend=X)", "ContractExpression(..., backend=X)", "evaluate_constants(backend=X)", "opt_einsum.backends.torch.*", "object_einsum"])

prop("C03", "However a contraction is written, it is the same contraction",
     "An equation with or without spaces, with explicit output (an empty one included) or without (then: the indices that occur exactly once in all operands, in code-point order, so capitals first), or operands interleaved with index lists, with or without an output list (an empty list means a scalar), for arrays (operands without a shape, such as nested lists, are made arrays) or for bare shapes: all forms give the inputs, the output and the operands that the form says, in order. "
     "An operand's shape is its shape attribute, () for a scalar, the nesting of a sequence (an empty one included), a ValueError for anything else. Every index has one size, that of its dimensions other than 1 (1 broadcasts, also to 0), each dimension being taken from its own operand and position. The parser's public helpers return what their documentation says: get_symbol runs through a-z, A-Z and then on from chr(192), a character is valid for einsum exactly if it is an ASCII letter or one of `,->.`, output shapes take the broadcast size.",
     ["inputs"], "all equations, interleaved requests, shapes and symbols",
     "Tests use a few dozen equations; a form that differs only for an empty output list, a capital letter, the 52nd symbol or a broadcast that arrives late is not among them.",
     ["opt_einsum/parser.py", C], [("equations", "opt_einsum/parser.py: parse_einsum_input, find_output_str, find_output_shape"), ("interleaved", "opt_einsum/parser.py: convert_interleaved_input"), ("sizes", "opt_einsum/contract.py: contract_path (size_dict)"), ("symbols", "opt_einsum/parser.py: get_symbol, is_valid_einsum_char")],
     "case analysis of value terms", "The request is reduced to a loop-free value term; the term is decided per form of the request and folded at points that separate it from its neighbours.",
     observe=["contract(...), contract_path(...) in every calling form", "opt_einsum.parser.*", "PathInfo.size_dict"])

prop("C18", "No third-party library is needed, on every declared Python",
     "`import opt_einsum` and planning (contract_path, contract_expression, all path searches, parsing of operands that have a shape) work where no third-party library, numpy included, is installed; numpy is asked for only to convert an operand that is no array. Importing the package loads no backend's library (numpy excepted, when present), and using a backend needs only that backend's "
     "own library (and numpy). All of the package parses and runs on every Python version that pyproject.toml declares: no syntax, function, method or option of the language or standard library that the lowest of them lacks or a later one has removed.",
     ["configurations"], "all environments: any set of installed libraries, every supported Python version",
     "A test run sees one Python with numpy installed; an import or a feature that is missing elsewhere cannot fail there.",
     ["opt_einsum/__init__.py", "opt_einsum/backends/dispatch.py", "opt_einsum/parser.py", C, PA, R_], [("guarded import", "opt_einsum/backends/dispatch.py: module level"), ("conversion", "opt_einsum/parser.py: possibly_convert_to_numpy"), ("declared versions", "pyproject.toml: requires-python, dependencies")],
     "import-closure and availability analysis", "Every import in the closure of the package is classified by its handler and dominating conditions; every use of the standard library and every construct is looked up in the version it appeared in.",
     observe=["import opt_einsum without numpy", "contract_path(..., shapes=True) without numpy", "any declared Python version"])

prop("C25", "Every documented option reaches what it controls",
     "`optimize`, `memory_limit`, `use_blas`, `backend`, `out`, `shapes` and the einsum options (`dtype`, `order`, `casting`, others) given to contract, contract_path or contract_expression reach the search, the steps and the library unchanged (only documented defaults are left out), also without optimization; tensordot does not replace einsum where it would "
     "drop options. The strategies' names mean the documented searches ('branch-2' two branches, 'random-greedy-128' 128 trials; 'auto' optimal up to 4 tensors, branch-all to 6, branch-2 to 8, branch-1 to 14, then greedy). nbranch, cutoff_flops_factor, minimize, cost_fn, choose_fn, cost_cap, search_outer, max_repeats, max_time, parallel, pre_dispatch, temperature and rel_temperature "
     "do what their documentation says for every value; options that are not given have their documented defaults.",
     ["inputs", "configurations"], "all values of all options, in all combinations, for all expressions",
     "A dropped or swapped option changes performance, layout or probabilities, or only matters for values no test uses; results mostly stay right.",
     [C, PA, R_], [("public functions", "opt_einsum/contract.py: contract, contract_path, contract_expression, _core_contract, _einsum, _filter_einsum_defaults"), ("searches", "opt_einsum/paths.py: branch, BranchBound, greedy, dynamic_programming, DynamicProgramming, auto, auto_hq, _PATH_OPTIONS"),
                   ("random search", "opt_einsum/path_random.py: RandomOptimizer, RandomGreedy, thermal_chooser, random_greedy_128")],
     "option-flow analysis over value-flow terms", "Values passed at every call site on an option's way are compared with the caller's option; the construct at its end is evaluated at small points.",
     observe=["contract(...), contract_path(...), contract_expression(...) options", "RandomGreedy(...), BranchBound(...), DynamicProgramming(...)", "optimize='auto' and all names"])

NA_FILES = [C, PA, R_]
prop("N01", "contract() equals the einsum definition numerically",
     "For every expression and every path the numbers returned equal the sum-of-products definition up to floating-point rounding.",
     ["inputs"], "all expressions, shapes, dtypes and paths", "Needs all inputs.", NA_FILES, [("executor", "opt_einsum/contract.py: _core_contract")], None,
     "Numerical values are run-time quantities produced by the array libraries; no static argument in reach bounds them. The structural parts (retention of indices, recorded steps, tensordot eligibility and axes, output array) are claimed as C05-C07 and C09.")
prop("N03", "Searches respect max_time",
     "A random search given max_time stops close to that time and an optimizer given no limit runs all repeats.",
     ["schedules"], "all machines and loads", "Timing varies.", [R_], [("time limit", "opt_einsum/path_random.py: RandomOptimizer")], None,
     "Elapsed time is a run-time quantity outside static reach.")
prop("N04", "Paths are reproducible across processes",
     "The same contraction gives the same path in every process whatever the hash seed.",
     ["configurations"], "all hash seeds and contractions", "One process has one hash seed.", [PA], [("greedy tie breaking", "opt_einsum/paths.py: ssa_greedy_optimize")], None,
     "Several searches iterate over sets by design (ties are broken by iteration order); whether a tie occurs is a run-time matter, so the property does not hold syntactically and cannot be decided semantically here.")
