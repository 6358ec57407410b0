"""C08: memory_limit is honoured by every search and reaches it unchanged."""
import itertools

from sa.engine import is_call, mcall
from sa.kit import Undecided, numleaf, phis, pick, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, cmp, const, contains, cval, is_const, mk, subst, subterms
from .common import SEARCH_OPAQUE, atoms_of, call_arg, nested, recursive_nested, unmemo

DESC = ("Guard-dominance analysis: every point where a search commits to a pairwise contraction must be dominated by a comparison of the size of "
        "the very tensor it creates with the limit; the guards are evaluated for no limit and for a size below, equal to and above the limit. The "
        "argument is followed from contract / contract_expression / contract_path through every strategy (parameter plumbing), and its "
        "normalisation is evaluated by constant propagation for every kind of value.")


INF = float("inf")
LIMIT = 1000
ABSENT = {"None": None, "-1": -1, "infinity": INF}


def plain(t):
    """constant value of a term, as a 1-tuple, or None"""
    if t.op == "const":
        return (cval(t),)
    if t.op == "neg" and t.a[0].op == "const":
        return (-cval(t.a[0]),)
    if is_call(t, "builtins.float") and t.a[1] and is_const(t.a[1][0], "inf"):
        return (INF,)
    if t.op in ("ext", "attr") and str(t.a[-1]).endswith("inf"):
        return (INF,)
    return None


def limit_leaf(eng, lim, v, val=lambda t: None, foreign=None, size_ok=lambda t: True, size=None):
    """truth of conditions when the limit has value v (and the created tensor the given size)"""

    def num(t):
        if t is lim and isinstance(v, (int, float)):
            return v
        if size is not None and size_ok(t):
            return size
        return val(t)

    def more(c, env):
        if c is lim:
            return bool(v)
        if c.op == "cmp" and c.a[0] == "in" and c.a[1] is lim:
            s = c.a[2]
            if s.op == "gvar":
                s = eng.global_value(s) or s
            if s.op in ("set", "tup", "lst"):
                xs = [plain(x) for x in s.a]
                if None not in xs:
                    return any(x[0] == v for x in xs)
            return None
        if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[1] is lim and plain(c.a[2]):
            return plain(c.a[2])[0] == v if c.a[0] == "eq" else plain(c.a[2])[0] is v
        if c.op == "isinstance" and c.a[0] is lim:
            names = {y.a[0].replace("builtins.", "") for y in subterms(c.a[1]) if y.op in ("ext", "class")}
            return type(v).__name__ in names
        if c.op == "cmp" and c.a[0] in ("lt", "eq") and contains(c, lim):
            x, y = (pick(z, base) if contains(z, lim) else z for z in c.a[1:])
            if x is not c.a[1] or y is not c.a[2]:
                return truth_of(cmp(c.a[0], x, y), {}, base)
            if v is None and c.a[0] == "lt":
                raise Crash("an absent limit is compared with a size")
            other = y if contains(x, lim) else x
            try:
                from sa.kit import numeval
                numeval(other, num)
            except Undecided:
                if foreign is not None:
                    foreign.append(other)
        return None

    base = numleaf(num, more)
    return base


def limit_table(eng, facts, lim, size_ok, absent):
    """{(kind of limit, order of size against limit): reachable} from the conditions that mention the limit.
    size_ok(term) -> True when the term is the size of the tensor being created."""
    facts = [unmemo(f) for f in facts]
    rel = [f for f in facts if contains(f, lim)]
    if not rel:
        return None, None
    out, foreign = {}, []
    for kind, o in [(k, 0) for k in absent] + [("limit", -1), ("limit", 0), ("limit", 1)]:
        leaf = limit_leaf(eng, lim, ABSENT.get(kind, LIMIT), foreign=foreign, size_ok=size_ok, size=LIMIT + o)
        at = []
        for f in rel:
            atoms_of(f, at)
        free = [a for a in at if not contains(a, lim) or a.op in ("any", "out", "nonempty", "fold")]
        if len(free) > 6:
            raise Undecided("too many conditions around the limit")
        reach = False
        for vals in itertools.product((False, True), repeat=len(free)):
            env = dict(zip(free, vals))

            def lf(c, e):
                if c in env:
                    return env[c]
                return leaf(c, e)

            if all(truth_of(f, {}, lf) for f in rel):
                reach = True
                break
        out[kind, o] = reach
    return out, foreign


class Crash(Exception):
    pass


NAMES = {("limit", -1): "when the size is below the limit", ("limit", 0): "when the size equals the limit", ("limit", 1): "when the size exceeds the limit"}
NAMES.update({(k, 0): f"without a limit ({k})" for k in ABSENT})


def judge(ctx, R, what, eng, e, facts, lim, size_ok, absent=tuple(ABSENT)):
    foreign = None
    try:
        tab, foreign = limit_table(eng, facts, lim, size_ok, absent)
    except Crash as c:
        ctx.unk(R, what, e.loc, str(c))
        return
    except Undecided as u:
        others = [c for f in facts for c in atoms_of(unmemo(f)) if c.op == "cmp" and c.a[0] == "lt" and lim in c.a[1:]]
        others = [x for c in others for x in c.a[1:] if x is not lim and not size_ok(x)]
        if others:
            ctx.bad(R, what + ": the created tensor's size is compared", e.loc, f"the limit is compared with {show(others[0], 5)}, not with the size of the tensor created")
            return
        ctx.unk(R, what, e.loc, str(u))
        return
    if tab is None:
        ctx.bad(R, what + ": guarded by the limit", e.loc, "the contraction is chosen without comparing its size with memory_limit")
        return
    for k, v in tab.items():
        want = k != ("limit", 1)
        ctx.put(v == want, R, f"{what}: {NAMES[k]}", e.loc, f"the contraction is {'chosen' if v else 'rejected'} {NAMES[k]}")


def size_of(term_ok):
    """predicate: size, by the index sizes, of a term satisfying term_ok"""

    def chk(t):
        t = unmemo(t)
        if t.op == "call" and t.a[0] is mk("func", "helpers.compute_size_by_dict") and t.a[1]:
            return term_ok(t.a[1][0])
        return False

    return chk


def lim_param(r, fn):
    for n, t in r.params.items():
        if "memory" in n or "limit" in n:
            return t
    return None


def outer_limit(ctx, outer):
    """the limit parameter of the search function, as seen by the nested functions"""
    fn = ctx.p.fn(outer)
    ps = fn.params()
    if len(ps) < 4:
        raise AnalysisBroken(f"{outer} lost its memory_limit parameter")
    k = 3 if ps[0] not in ("self",) else 4
    return ps[k]


def r_optimal(ctx):
    R = "exhaustive search"
    fq = recursive_nested(ctx, "paths.optimal")
    r = ctx.run(fq, opaque=SEARCH_OPAQUE)
    name = outer_limit(ctx, "paths.optimal")
    calls = [e for e in r.evs("call") if e.callee is mk("func", fq)]
    if not calls:
        raise Undecided("no recursion")
    for e in calls:
        lim = mk("param", "paths.optimal", name)
        new = new_tensor(ctx, fq, r, e)
        judge(ctx, R, "optimal", r.eng, e, e.facts, lim, size_of(lambda t: t is new or new is None))


def new_tensor(ctx, fq, r, e):
    """the tensor a recursive call appends to the tuple of tensors"""
    for n, p in r.params.items():
        a = call_arg(e, ctx.p.fn(fq), n)
        if a is not None and a.op == "add" and a.a[0] is p and a.a[-1].op == "tup" and len(a.a[-1].a) == 1:
            x = unmemo(a.a[-1].a[0])
            if contains(x, lambda s: s.op == "func" and s.a[0] == "paths.calc_k12_flops"):
                return x
    return None


def r_branch(ctx):
    R = "branching search"
    if "paths.BranchBound.__call__" not in ctx.p.fns:
        raise AnalysisBroken("BranchBound is missing")
    fq = recursive_nested(ctx, "paths.BranchBound.__call__")
    r = ctx.run(fq, opaque=SEARCH_OPAQUE)
    name = outer_limit(ctx, "paths.BranchBound.__call__")
    lim = mk("param", "paths.BranchBound.__call__", name)
    seen = 0
    for e in r.evs("return"):
        v = e.value
        if v.op == "tup" and len(v.a) >= 4 and e.loops:
            k12 = {unmemo(s) for x in v.a for s in [x] if s.op in ("phi", "idx")}
            plain = size_of(lambda t: t in k12 or not k12)
            kept = {unmemo(x) for x in v.a}

            def ok(t, plain=plain, kept=kept):
                """the new tensor's size, or the running maximum handed on with the candidate (the part before it was within the limit)"""
                u = unmemo(t)
                if is_call(u, "builtins.max") and len(u.a[1]) == 2 and u in kept and any(x in r.params.values() for x in u.a[1]):
                    return any(plain(x) for x in u.a[1])
                return plain(t)
            judge(ctx, R, "BranchBound candidate", r.eng, e, e.facts, lim, ok)
            seen += 1
    if seen:
        return
    calls = [e for e in r.evs("call") if e.callee is mk("func", fq)]
    for e in calls:
        if any(contains(f, lim) for f in e.facts):
            judge(ctx, R, "BranchBound", r.eng, e, e.facts, lim, size_of(lambda t: True))
            seen += 1
    if not seen:
        if not any(contains(f, lim) for e in r.events for f in e.facts):
            ctx.bad(R, "BranchBound: guarded by the limit", ctx.p.fn(fq).loc, "no condition of the search depends on memory_limit")
        else:
            raise Undecided("candidates not recognised")


def r_greedy(ctx):
    R = "greedy search"
    r = ctx.run("paths.greedy", public=True, opaque=SEARCH_OPAQUE | {"paths.ssa_greedy_optimize", "paths.branch"})
    ps = list(r.params.values())
    lim = ps[3]
    calls = [e for e in r.evs("call") if e.callee is mk("func", "paths.ssa_greedy_optimize")]
    delegs = [e for e in r.evs("call") if e.callee in (mk("func", "paths.branch"),) or (e.callee.op == "call" and contains(e.callee, lambda s: s.op == "class" and s.a[0] == "paths.BranchBound"))
              or e.callee in (mk("func", "paths.optimal"), mk("func", "paths.dynamic_programming"))]
    if not calls:
        raise Undecided("greedy does not call the greedy search")
    for e in calls:
        rel = [f for f in e.facts if contains(f, lim)]
        if not rel:
            ctx.bad(R, "greedy: a limit is delegated", e.loc, "the unlimited greedy search is used whatever memory_limit is")
            continue
        for kind in list(ABSENT) + ["limit"]:
            unl = kind != "limit"
            v = all(truth_of(f, {}, limit_leaf(r.eng, lim, ABSENT.get(kind, LIMIT))) for f in rel)
            ctx.put(v == unl, R, f"greedy: {'without a limit (' + kind + ')' if unl else 'with a limit'}", e.loc,
                    "the limited search is used without a limit" if unl else "the search that ignores the limit is used although there is one")
    for e in delegs:
        passes(ctx, R, "greedy", e, lim, ("inputs", "output", "size_dict", "memory_limit"))


def passes(ctx, R, what, e, lim, names=None):
    """the call hands the limit on, as its memory argument"""
    args, kws = list(e.args), dict(e.kws)
    k = 3
    got = args[k] if len(args) > k else next((v for n, v in kws.items() if n and ("memory" in n)), None)
    if got is None:
        if any(a.op == "star" for a in args) or None in kws:
            ctx.unk(R, f"{what}: hands the limit on", e.loc)
        else:
            ctx.bad(R, f"{what}: hands the limit on", e.loc, "memory_limit is not passed to the search")
        return
    if got is lim:
        ctx.ok(R, f"{what}: hands the limit on", e.loc)
    elif not contains(got, lim):
        ctx.bad(R, f"{what}: hands the limit on", e.loc, f"the search is given {show(got, 4)} instead of the limit")
    else:
        ctx.unk(R, f"{what}: hands the limit on", e.loc, show(got, 4))


def r_wrappers(ctx):
    R = "wrappers"
    from .c16 import auto_choice
    for fq in ("paths.branch", "paths.dynamic_programming", "path_random.random_greedy"):
        if fq not in ctx.p.fns:
            raise AnalysisBroken(fq + " is missing")
        r = ctx.run(fq, public=True, opaque=SEARCH_OPAQUE | {"paths.BranchBound.__call__", "paths.DynamicProgramming.__call__", "path_random.RandomOptimizer.__call__"})
        lim = list(r.params.values())[3]
        calls = [e for e in r.evs("call") if (e.callee.op in ("call", "new") or contains(e.callee, lambda s: s.op == "class")) and len(e.args) >= 3
                 and e.callee.op != "class" and contains(mk("tup", *e.args), list(r.params.values())[0])]    # the search itself, not its construction
        if not calls:
            ctx.unk(R, f"{fq}: hands the limit on", ctx.p.fn(fq).loc, "no search call")
        for e in calls:
            passes(ctx, R, fq, e, lim)
    for fq in ("paths.auto", "paths.auto_hq"):
        for n in (2, 4, 6, 8, 12, 16, 30):
            try:
                ps, t = auto_choice(ctx, fq, n)
            except Undecided as u:
                ctx.unk(R, f"{fq}: {n} terms", "", str(u))
                continue
            got = t.a[1][3] if len(t.a[1]) > 3 else dict(t.a[2]).get("memory_limit")
            ctx.put(False if got is None or not contains(got, ps[3]) else True if got is ps[3] else None, R, f"{fq}: {n} terms: hands the limit on", ctx.p.fn(fq).loc,
                    f"the search is given {show(got, 3) if got is not None else 'nothing'}")


def r_random(ctx):
    R = "random search"
    fq = "path_random.RandomOptimizer.__call__"
    r = ctx.run(fq, public=True, opaque=SEARCH_OPAQUE)
    lim = lim_param(r, None)
    if lim is None:
        raise Undecided("no limit parameter")
    used = any(contains(x, lim) for e in r.events for x in list(e.facts) + [a for a in (e.d.get("args") or ())] + [v for _, v in (e.d.get("kws") or ())])
    ctx.put(True if used else False, R, "RandomOptimizer: uses the limit", ctx.p.fn(fq).loc, "memory_limit is accepted and never used")


def r_dp(ctx):
    R = "dynamic programming"
    mod = [fq for fq in ctx.p.fns if fq.startswith("paths._dp_compare_")]
    if not mod:
        raise Undecided("comparison functions not found")
    for fq in sorted(mod):
        r = ctx.run(fq, opaque=SEARCH_OPAQUE)
        lim = lim_param(r, None)
        if lim is None:
            ctx.bad(R, f"{fq}: takes the limit", ctx.p.fn(fq).loc, "the comparison has no limit")
            continue
        st = [e for e in r.evs("mutate") if e.op == "setitem" and e.args[1].op == "tup"]
        if not st:
            ctx.unk(R, fq, ctx.p.fn(fq).loc, "no table entry is written")
        for e in st:
            legs = e.args[1].a[0]
            judge(ctx, R, fq, r.eng, e, e.facts, lim, size_of(lambda t: t is unmemo(legs)), ("None",))
    fq = "paths.DynamicProgramming.__call__"
    r = ctx.run(fq, public=True, opaque=SEARCH_OPAQUE | {"paths._parse_minimize", "paths._find_disconnected_subgraphs", "paths._dp_parse_out_single_term_ops",
                                                        "paths._tree_to_sequence", "paths.simple_tree_tuple"})
    lim = list(r.params.values())[3] if len(r.params) == 4 else list(r.params.values())[4]
    calls = [e for e in r.evs("call") if contains(e.callee, lambda s: s.op == "func" and s.a[0] == "paths._parse_minimize")]
    n = 0
    for e in calls:
        if len(e.args) < 10:
            continue
        n += 1
        fn = ctx.p.fn(sorted(mod)[0])
        k = [i for i, p in enumerate(fn.params()) if "memory" in p or "limit" in p][0]
        got = e.args[k] if k < len(e.args) else None
        if got is None:
            ctx.unk(R, "DynamicProgramming: hands the limit to the comparison", e.loc)
            continue
        if not contains(got, lim):
            ctx.bad(R, "DynamicProgramming: hands the limit to the comparison", e.loc, f"the comparison is given {show(got, 3)}")
            continue
        for kind in list(ABSENT) + ["limit"]:
            v = pick(got, limit_leaf(r.eng, lim, ABSENT.get(kind, LIMIT)))
            if kind == "limit":
                good = True if v is lim else False if v is NONE else None
            else:
                good = True if v is NONE or (v is lim and kind in ("None", "infinity")) else False if v is lim else None
            ctx.put(good, R, f"DynamicProgramming: limit used for {'a limit' if kind == 'limit' else 'no limit (' + kind + ')'}", e.loc,
                    f"the comparison is given {kind if v is lim else show(v, 3)}")
    if not n:
        ctx.unk(R, "DynamicProgramming: hands the limit to the comparison", ctx.p.fn(fq).loc)
    # combination of independent components
    for e in r.evs("return"):
        v = r.eng.freeze(e.value, r.state)
        if e.fq != fq or not is_call(v, "paths._tree_to_sequence") or not v.a[1]:
            continue
        x = v.a[1][0]
        if not contains(x, lambda t: t.op in ("out", "add", "append", "comp") and contains(t, lambda u: u.op == "func" and u.a[0] == "paths._find_disconnected_subgraphs")):
            continue
        what = "DynamicProgramming: products of independent components"
        for o, word in ((1, "a product exceeds the limit"), (-1, "the products fit")):
            leaf = limit_leaf(r.eng, lim, LIMIT, val=lambda t: 3 if is_call(t, "builtins.len") else None, size=LIMIT + o,
                              size_ok=lambda t: t.op == "call" and t.a[0] is mk("func", "helpers.compute_size_by_dict"))
            try:
                if not all(truth_of(f, {}, leaf) for f in e.facts if contains(f, lim)):
                    continue    # another return serves this case
                y = pick(x, leaf)
            except Undecided as u:
                ctx.unk(R, f"{what}: {word}", e.loc, str(u))
                continue
            pair = is_call(y, "paths.simple_tree_tuple") or is_call(y, "functools.reduce") or y.op == "reduce"
            flat = y.op in ("tup", "comp") or is_call(y, "builtins.tuple")
            if o > 0:
                ctx.put(False if pair else True if flat else None, R, f"{what}: {word}", e.loc, "the components are multiplied pairwise although an intermediate product exceeds memory_limit")
            else:
                ctx.put(True if pair or flat else None, R, f"{what}: {word}", e.loc, show(y, 3))


def r_unlimited(ctx):
    R = "what counts as no limit"
    eng = ctx.run("paths.greedy", public=True, opaque=SEARCH_OPAQUE | {"paths.ssa_greedy_optimize", "paths.branch"}).eng
    g = mk("gvar", "paths", "_UNLIMITED_MEM")
    t = eng.global_value(g)
    if t is None or t.op not in ("set", "tup", "lst"):
        raise Undecided("no table of unlimited values")
    vals = {show(x, 3) for x in t.a}
    want = {"None", "-1"}
    ctx.put(want <= vals, R, "None and -1", "opt_einsum/paths.py", f"only {sorted(vals)} count as no limit")
    extra = [x for x in t.a if x.op == "const" and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool) and cval(x) >= 0 and cval(x) != float("inf")]
    ctx.put(not extra, R, "no real limit is ignored", "opt_einsum/paths.py", f"a limit of {show(extra[0]) if extra else ''} is treated as no limit")


OPAQUE = ("helpers.find_contraction", "helpers.flop_count", "helpers.compute_size_by_dict", "blas.can_blas", "parser.parse_einsum_input",
          "parser.find_output_shape", "paths.get_path_fn", "parser.get_shape", "contract.PathInfo")


def const_leaf(vals):
    """truth of conditions over parameters with known constant values"""
    mp = {p: const(v) for p, v in vals.items()}

    def leaf(c, env):
        x = subst(c, mp)
        if x is TRUE or x is FALSE:
            return x is TRUE
        if x.op == "isinstance" and x.a[0].op == "const":
            names = {y.a[0].replace("builtins.", "") for y in subterms(x.a[1]) if y.op in ("ext", "class")}
            return any(k.__name__ in names for k in type(cval(x.a[0])).__mro__)
        if x.op == "const":
            return bool(cval(x))
        return None

    return leaf


def r_argument(ctx):
    R = "meaning of the argument"
    fq = "contract.contract_path"
    r = ctx.run(fq, public=True, opaque=OPAQUE)
    p = r.params.get("memory_limit")
    if p is None:
        raise AnalysisBroken("contract_path has no memory_limit")
    opt = r.params.get("optimize")
    searches = [e for e in r.evs("call") if len(e.args) >= 3 and (e.callee is opt or contains(e.callee, lambda s: s.op == "func" and s.a[0] == "paths.get_path_fn") or (
        e.callee.op == "phi" and contains(e.callee, opt)))]
    if not searches:
        raise Undecided("search calls not found")
    raises = [e for e in r.evs("raise") if any(contains(f, p) for f in e.facts)]
    for e in searches:
        got = e.args[3] if len(e.args) > 3 else dict(e.kws).get("memory_limit")
        which = "optimizer object" if e.callee.op != "call" else "named strategy"
        if got is None or not contains(got, p):
            ctx.bad(R, f"{which}: the limit reaches the search", e.loc, f"the search is given {show(got, 4) if got is not None else 'no limit'}")
            continue
        for v in ("max_input", None, -1, 1, 5, 7.0):
            lf = const_leaf({p: v})
            try:
                t = subst(pick(got, lf), {p: const(v)})
            except Undecided as u:
                ctx.unk(R, f"{which}: memory_limit={v!r}", e.loc, str(u))
                continue
            rej = False
            for x in raises:
                try:
                    rej = rej or all(truth_of(f, {}, lf) for f in x.facts if contains(f, p))
                except Undecided:
                    pass
            if rej:
                ctx.bad(R, f"{which}: memory_limit={v!r}", e.loc, "a documented value is rejected")
                continue
            if v == "max_input":
                m = is_call(t, "builtins.max") and t
                if not m:
                    ctx.put(False if t is NONE or t.op == "const" else None, R, f"{which}: memory_limit={v!r}", e.loc, f"becomes {show(t, 4)}")
                    continue
                parse = [s for s in subterms(t) if s.op == "call" and s.a[0] is mk("func", "parser.parse_einsum_input")]
                # sizes are of the terms, not the size dictionary built from them
                sz = [s for s in subterms(t) if s.op == "call" and s.a[0] is mk("func", "helpers.compute_size_by_dict")]
                terms = [s.a[1][0] for s in sz]
                ins = any(contains(x, mk("idx", q, const(0))) for q in parse for x in terms)
                outs = any(contains(x, mk("idx", q, const(1))) for q in parse for x in terms)
                sl = is_call(t, "builtins.max") and len(t.a[1]) == 1 and t.a[1][0].op == "idx" and t.a[1][0].a[1].op == "slice"
                if sl and any(x is not NONE for x in t.a[1][0].a[1].a if hasattr(x, "op")):
                    ctx.bad(R, f"{which}: memory_limit={v!r}", e.loc, "only part of the terms is measured: " + show(t.a[1][0].a[1], 3))
                    continue
                ctx.put(True if ins and outs else False if sz else None, R, f"{which}: memory_limit={v!r}", e.loc,
                        f"the bound does not cover the {'inputs' if not ins else 'output'}")
            elif v in (None, -1):
                ctx.put(True if t is NONE or is_const(t, -1) or show(t) in ("None", "-1", "int(-1)") else False if t.op == "const" or is_call(t, "builtins.max") else None, R,
                        f"{which}: memory_limit={v!r}", e.loc, f"becomes {show(t, 4)}")
            else:
                x = t
                while is_call(x, "builtins.int", "builtins.float") and len(x.a[1]) == 1:
                    x = x.a[1][0]
                ctx.put(True if x.op == "const" and cval(x) == v else False if x is NONE or x.op == "const" or is_call(x, "builtins.max") else None, R, f"{which}: memory_limit={v!r}",
                        e.loc, f"becomes {show(t, 4)}")
    for v in ("other", 0, -2, 0.5):
        lf = const_leaf({p: v})
        rej, unk = False, None
        for x in raises:
            try:
                rej = rej or all(truth_of(f, {}, lf) for f in x.facts if contains(f, p))
            except Undecided as u:
                unk = u
        if not rej and unk is None:
            ctx.bad(R, f"memory_limit={v!r} is rejected", ctx.p.fn(fq).loc, "an invalid limit is silently accepted")
        else:
            ctx.put(True if rej else None, R, f"memory_limit={v!r} is rejected", ctx.p.fn(fq).loc, str(unk))


def r_plumbing(ctx):
    R = "from the public functions to the search"
    for fq, callee in (("contract.contract", "contract.contract_path"), ("contract.contract_expression", "contract.contract")):
        r = ctx.run(fq, public=True, opaque=("contract.contract_path", "contract._core_contract", "contract._einsum", "parser.convert_interleaved_input") + (
            ("contract.contract",) if fq.endswith("expression") else ()))
        p = r.params.get("memory_limit")
        if p is None:
            raise AnalysisBroken(f"{fq} has no memory_limit")
        calls = [e for e in r.evs("call") if e.callee is mk("func", callee)]
        if not calls:
            ctx.unk(R, fq, ctx.p.fn(fq).loc, f"{callee} is not called")
        for e in calls:
            got = dict(e.kws).get("memory_limit")
            if got is None and (None in dict(e.kws)):
                ctx.unk(R, fq, e.loc)
            else:
                ctx.put(got is p if got is not None and (got is p or not contains(got, p)) else False if got is None else None, R, f"{fq} passes memory_limit to {callee}", e.loc,
                        f"passes {show(got, 3) if got is not None else 'nothing'}")


def r_history(ctx):
    """a best path kept from a call under another limit must not be returned"""
    R = "limits of repeated calls"
    fq = "paths.BranchBound.__call__"
    if fq not in ctx.p.fns:
        raise Undecided("gone")
    r = ctx.run(fq, public=True, opaque=SEARCH_OPAQUE)
    s = next(iter(r.params.values()))
    lim = r.params.get("memory_limit")
    if lim is None:
        raise Undecided("no memory_limit")
    keeps = [e for e in r.events if e.kind == "mutate" and e.op == "setitem" and e.obj.op == "attr" and e.obj.a[0] is s and e.args[0].op == "const"]
    fresh = [e for e in r.events if e.kind == "setattr" and e.obj is s and e.name == "best"]
    if not keeps:
        return
    aware = [e for e in r.events if e.kind in ("raise", "setattr", "mutate") and any(contains(f, lim) and contains(f, lambda x: x.op == "attr" and x.a[0] is s and x.a[1] not in ("best", "best_progress", "better", "cutoff_flops_factor"))
                                                                                      for f in e.facts)]
    aware += [e for e in fresh if not e.facts]
    ctx.put(True if aware else False, R, "BranchBound: a path kept from a call under another limit", ctx.p.fn(fq).loc,
            "the best path is kept between calls and nothing depends on whether the limit has changed")


def check(ctx):
    ctx.rule("exhaustive search", r_optimal)
    ctx.rule("branching search", r_branch)
    ctx.rule("greedy search", r_greedy)
    ctx.rule("dynamic programming", r_dp)
    ctx.rule("random search", r_random)
    ctx.rule("wrappers", r_wrappers)
    ctx.rule("what counts as no limit", r_unlimited)
    ctx.rule("meaning of the argument", r_argument)
    ctx.rule("from the public functions to the search", r_plumbing)
    ctx.rule("limits of repeated calls", r_history)
