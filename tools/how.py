HOW = {}
HOW["C01"] = """Typestate/effect analysis of `sharing.py`. Obligations: every entry effect on the per-thread stack has exactly one matching exit effect in a `finally` that covers the
body of the block; the key of the stack is the current thread; the cache selected is the caller's object (`is None` test, not truthiness); the table entry goes exactly when the stack is empty
(the exit code is evaluated for each depth class 1, 2, >2); who else writes the table. Oracle: the nesting discipline. Reaches all nestings and exception exits because they are paths of the exception structure."""
HOW["C02"] = """Information flow from the arguments of each memoising wrapper to (a) the stored value and (b) the key: every input of the value must be recoverable from the key (identity, tuple, sorted pairs,
canonical renaming applied jointly), keys of different wrappers must be distinguishable, operands whose `id` is in a key must be retained by the entry, the call that is memoised gets the arguments unchanged.
Oracle: the definition of a memo. A collision is reported with the input that was lost."""
HOW["C05"] = """The term of 'which indices survive' at each site (path summary, pairwise result, greedy candidate + reference counts, dynamic-programming legs and single-term sums, holders' tables) is evaluated for
one arbitrary index over all membership cases (in k1, in k2, in output, in a remaining term, reference count 0/1/2/3+) and compared with the definition. Exhaustive in the abstract domain, no bound on numbers of terms."""
HOW["C06"] = """Planner and executor are two loops over the same recorded steps. Lists are treated as positional structures: terms `dropall(list, positions)` + `append(result)` in both, identical removal order, the record
carries the positions, equation and remaining terms of that very step, the equation's input strings are the ones popped, its output is a permutation of the retained set, the last one the requested output in its order;
handover of the record to expressions and the constant pre-pass (hands on exactly the unfinished steps)."""
HOW["C07"] = """`can_blas` is evaluated, as a term, for each class of index (in left/right once or repeatedly, kept or not) and each order relation; every class combination where einsum and tensordot differ must be refused.
In the executor: conditions under which tensordot runs imply eligibility, no broadcasting and no einsum-only options (path conditions under assumptions), axes are index positions of the same label in both operands, the permutation
is the recorded order, the other route passes the recorded equation and all options."""
HOW["C08"] = """For each search: path conditions under which a new intermediate is accepted must imply its size is within the limit or the limit is absent (numeric evaluation over order classes size <,=,> limit and limit classes None/-1/inf/number);
the limit is the one meant by the argument ('max_input', None, number), travels unchanged from `contract`/`contract_path` to the search, recursion and fallbacks included, and the fallback when nothing fits is one single contraction.
One known finding (random search)."""
HOW["C09"] = """Must-flow of the `out` array: on each route of the last step (einsum, tensordot +- transpose, torch, optimize=False) it is handed on or filled (`out[...] =` for any rank), never on another step, and is the object returned; expressions forward it."""
HOW["C14"] = """Record writes of each search are grouped by path condition; the condition must imply strict improvement in the objective for every order class of (flops, size) against the record; all parts of one record come from one candidate; accumulators
grow by the pair's cost along the recursion; initial records are infinite; the value returned is the record; dynamic programming keeps per-subset minima."""
HOW["C16"] = """The table of strategy names is read from the source as data; lookup is by the normalised name on both the write and read side; unknown names raise; `auto`/`auto-hq` thresholds cover every number of terms without gap (interval evaluation), each with a strategy that
accepts the arguments; the strategy asked for is the callee on every path of `contract_path`."""
HOW["C22"] = """Every 'look up, else compute and store' shape is found in the package. Each varying input of the stored value must be a function of the key (same flow analysis as C02); a caller's fallback must not be stored; functions under cache decorators must depend on their parameters only.
In the recursive searches, sub-results must be keyed by what distinguishes the pair."""
HOW["C23"] = """Every memoising wrapper is run with the parser opaque; under the assignment 'sharing, key in cache, no further options' no call of the wrapped operation may be reachable; under 'sharing, key absent' it must be, and a store under the key that is looked up must follow;
outside of sharing blocks nothing may be stored. The key terms are evaluated at groups of requests that denote the same operation (operands permuted, indices renamed, axes as number or as pairs) and must be equal. Every function called by the contraction loop that fetches a backend function must carry a memoising wrapper, and so must
each backend's conversion. In `ContractExpression.__call__`, under 'this backend is in the table' neither the constants nor the backend expression may be recomputed; the store must be to the table and key looked up. Oracle: the documentation of `shared_intermediates` and of expressions with constants."""
HOW["C24"] = """Tensors are linear resources. For the recursive searches: the list handed down is the list minus the two positions named in the recorded pair plus one new entry. Greedy: heap entries are checked for liveness before use, both tensors leave the live table when a pair is contracted, one new one enters with a fresh id, and the leftover loop ends with one. Dynamic programming: disjoint sub-sets are joined, all components are joined, the tree is flattened with positions removed from the back. Conversions
(`ssa_to_linear`, `linear_to_ssa`) are checked as the two directions of the same renumbering. The random chooser pushes back every candidate but the one chosen."""
HOW["C10"] = """Every renaming is found as a table or a function from labels to symbols. `get_symbol` is read as pieces (a lookup string, code points with an offset); the pieces are compared as intervals for all integers: distinct and disjoint.
Tables must get an argument that grows with every new key (position or current size), must be filled for every non-punctuation symbol and applied to the whole equation; generated symbols are excluded against all symbols used. Oracle: injectivity."""
HOW["C11"] = """Each class of malformed request is an assignment of truth/numbers to atomic tests (counts of '-', '>', '.', membership of output indices, numbers of operands, ranks, sizes, remaining tensors, options). The conditions under which a function can still
return are partially evaluated: false = refused; identical to the residual of the well-formed neighbour = nothing refuses it (violation); otherwise undecided. The well-formed neighbours themselves must not be refused. Reaches all inputs of a class at once."""
HOW["C12"] = """Each `replace('...', X)` is read as (count, slice of the pool). Count is evaluated for ranks 0-4 and 0-2 named indices against rank - named (the terms are linear, so this is exact), the slice over the sign classes of the count; the output's count must be the
running maximum; the implicit output is ellipsis symbols + sorted indices occurring once (evaluated for 1, 2, 3 occurrences)."""
HOW["C13"] = """Must-flow. The lists handed to the path information are read as (loop over the returned path, value appended per step, empty start); the value appended must be the operation count / number of indices / result size built from the parts of
that step's `find_contraction` (whose meaning C05 decides), totals are sums or maxima of those lists, the naive cost is over all indices and terms; each field of the object is the parameter of its name (arithmetic ones evaluated numerically, including
a cost of 0 and a path without steps); each printed line shows the field its label names."""
HOW["C27"] = """Local completeness conditions. For the exhaustive search: the iterable feeding the recursion is all pairs of the remaining terms, the loop has no exit that fires, and the conjunction of path conditions of the recursive call is
true at every point (cost so far, cost of the pair, best, limit) where the pair may still lead to a better path. For dynamic programming: the ranges of sizes are evaluated for up to 8 tensors (every split n = m + (n-m) occurs), the conditions on a
pair are evaluated for all combinations of disjointness, shared index, equal sizes, search_outer and order of the two sets, results within bound and limit are stored, the bound grows and the search gives up only above what a path can cost: the scale `_parse_minimize` gives each objective (factors 0, 3, 64, 100) is evaluated against the most a step of it costs, the bound against infinity, against sizes of zero, and against products
beyond a float. For
the branching search: the same for candidates (cut-off factor included) and the counter of explored branches. Together with C14 (records) and C26 (additive costs) this is the induction argument for least cost; it replaces an earlier
not-applicable entry."""
HOW["C15"] = """Typestate. For every subclass of PathOptimizer the effects of __call__ on the object (attribute writes, in-place mutations of attribute containers) are collected from the event stream. A class with effects outside the remembered arguments must, before the first of them, pass the
guard: the path condition to the effect is evaluated for first call / same call / a call differing in terms, output or sizes, and must be false in exactly the last three; the remembered value must be a fresh copy, not an alias of the caller's containers; containers mutated by calls must be created in __init__ (per instance), not on the class.
C08 adds: what a second call with another memory limit may return from remembered state (known finding for BranchBound)."""
HOW["C19"] = """Sibling agreement: the iterable consumed by __call__ is a choice between a serial generator and a parallel one; both are reduced to (sequence of numbers, function, arguments). The numbers (a range over attributes) are evaluated for several histories, including what the call
writes back to those attributes. The parallel generator is read as a queue: one unconditional push per number, each pop paired with a yield of that result, FIFO, and a final loop whose condition is evaluated for 0-3 pending trials. A trial: `random.seed(number)` dominates the search,
injective in the number; chooser evaluated for trials 0, 1, 2, 9 and all values of other conditions; the closure of references of the trial (functions, tables, externals) contains no other source of randomness, no writes to globals or mutable defaults; what is sent to a worker is module-level."""
HOW["C20"] = """Typestate by abstract simulation: the events of the setter / __del__ are executed over states (executor: unset, none, own, caller's; ownership flag) for the setting kinds off, on, int, Decimal, executor; conditions are decided per kind. After each: which pool was shut down, which is in use, whether
the flag says who owns it, number of workers. Cancellation after a search: the path condition of `cancel` is evaluated for a search ended by its time limit."""
HOW["C21"] = """Effect analysis. Every attribute write and in-place change of the object by methods other than __init__ is collected: a container entry must be keyed by every parameter its value depends on; a plain attribute read by calls may only be the list of steps left by the evaluation of constants,
which must come from the same evaluation as the constants stored, be stored first (publication order) and be re-read after. The (operands, steps) a call runs are evaluated for evaluating / no constants / constants known / evaluated by this call. `_core_contract` leaves its loop exactly when evaluating and an operand
of the step is missing or it is the last, before touching operands, returning the steps from there on. For each backend, the variables captured by the function kept for later calls are traced to the first call's arrays; they may depend on them only through conversions that use shape and type."""
HOW["C03"] = """Case analysis of value terms. parse_einsum_input, find_output_str, find_output_shape, get_symbol and the tests for valid characters are reduced by the value-flow engine to loop-free terms over their parameters; the terms are constant-folded at points chosen to separate the documented meaning from its neighbours (spaces anywhere, empty output, capitals, repeated index, empty operand,
number 51 / 52, late broadcast). For interleaved requests the condition under which an explicit output is written is decided for: no output list, an empty one, a non-empty one. The table of sizes is treated as a transition system: for each way an occurrence can arrive (new, same size, 1 after n, n after 1) the guards of all writes are evaluated and the resulting entry compared with the
largest dimension; the dimension read must be indexed by the positions of its own operand and character. get_shape: the end reached is decided per kind of operand (with shape, scalar, sequence, other), and no entry of an empty sequence is read. Cost: 1 s."""
HOW["C04"] = """Ownership analysis. The engine gives every object created by a call its own identity and keeps parameters, their elements and attributes apart. From each of the 60-odd public entry points all callees are followed and every write is collected: container methods, item / attribute stores and deletions, heap
operations, in-place operators (on values whose annotation or default makes them mutable), `out=` arguments, in-place array methods and functions. The objects written (through alternatives, loop-carried variables, copies and their elements) must not be an argument or part of one, other than `self`, the
dictionary of keyword arguments itself, `out`, and the candidate queue of a chooser. Nested functions run later are checked through the variables they capture, and objects an instance keeps as given are followed into its other methods."""
HOW["C28"] = """Name and signature analysis of every function of the package. Scopes are built as Python does (comprehensions, class bodies, global / nonlocal); a forward may-bind analysis reports local uses no path can have bound (first pass of a loop included). Callees are resolved through imports, methods (overrides included),
`super()`, nested functions, alternatives, partial application, module-level tables, decorators of the package, parameters (from what callers pass, defaults and decoration), and functions forwarding *args; the argument shape of every call must fit each of them (a callback called in several ways must fit one). Parameters that only ever
get one of the package's objects (the expression given to a backend) are typed from their call sites. Standard-library members and signatures are looked up in the interpreter running the check. Only constructs that raise whenever they are reached are reported; what cannot be resolved is not judged. The scope and may-bind parts were run over 6,000 files of the installed libraries to look for false reports."""
HOW["C17"] = """Sibling agreement. The tables of builders and evaluators are read from the source and must name the same backends, each its own module. A builder is run symbolically on an opaque expression and the closure it returns is then applied to fresh arrays, so that the term returned shows the call of the
expression (operands, their conversion, backend) under the conversion of the result; for tensorflow once per mode, the position of the mode in the cached tuple being found from where it is made. Evaluators likewise, with the places of missing operands and the flag that keeps values as constants. Converters are evaluated for (array or not) x (constant or
operand) x mode: values kept, or only type and shape, or the object unchanged. Aliases and the table filled at import are compared with where each library keeps its functions. torch.einsum / tensordot / transpose and the equation made by hand (axes as number, pair, lists; labels shared by contracted axes; order of the labels left) and object_einsum (sizes, ranges, sum of
products, coordinates) are matched with their definitions; sizes and axes are evaluated at small points. Looking for constructs the tests never run found that object_einsum ignored broadcasting (fixed)."""
HOW["C18"] = """Import closure. Starting from opt_einsum/__init__.py every module-level import is followed; one that is neither standard library, package, nor a declared dependency must lie in a try whose handler catches its absence and goes on (numpy only: other libraries must not be loaded at all). Names bound only in such a try may not be used outside it: a use that runs whenever the
module, or a function on the every-run call closure of the entry points, runs is a violation. Function-level imports of the core modules must be caught, or dominated (path facts of the value-flow engine) by the test that an operand has no shape, in the function or at all its call sites. Backends may import their own library and numpy. The lowest Python version is read from
pyproject.toml; every module is parsed with that grammar (f-strings checked on tokens as well) and every name, method, keyword option, subscript of a class and union of types is looked up in a table of the versions they appeared (or vanished) in, unless guarded by sys.version_info, hasattr, TYPE_CHECKING or a handler. Cost: 1 s."""
HOW["C25"] = """Option flow. For every public function the call sites carrying an option on are found in the call graph, and the value term passed is compared with the option's parameter (for **kwargs: the entry under probe names, followed through copies, pops, merges and filters). `optimize` is resolved for False, True, None, a name, a path and
an optimizer object. The module-level tables of strategies are read statically (literals, loops over constant ranges, partial applications, thin wrappers) and the dispatchers 'auto' and 'auto-hq' are evaluated for each number of tensors against the documented thresholds. At the end of the chain the controlled construct is evaluated at
points: guard of the next branch (nbranch), of giving up a pair (cutoff_flops_factor), initial cap (cost_cap True / False / number), pairs without common index (search_outer), range of the trials (max_repeats), exits of the loop (max_time), executor per kind of `parallel`, guard of waiting (pre_dispatch), candidates drawn and weights exp(-(c-c0)/T)
(nbranch, temperature, rel_temperature), filter of einsum options for each documented value. Cost: 3 s."""
HOW["C26"] = """Value analysis. Every cost formula is reduced to a term; the index sets whose sizes enter are classified by a membership table over index kinds (in either operand, in other terms, in the output), running totals are followed
through the loop or recursion carrying them (initial value and step), and the term is evaluated at points separating the documented formula from other sums, products, maxima of the same quantities. `_parse_minimize` is resolved per documented
name (the regular expression is a constant and is applied to the constant names) to the function whose stored cost is evaluated. For pairs, an index summed within one operand only may or may not count as a sum (the code's searches and its path
information differ there; the documentation does not settle it)."""
