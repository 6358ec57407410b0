"""C11: malformed requests are refused, well-formed ones are not."""
from sa.engine import is_call, mcall
from sa.kit import Undecided, numeval, numleaf, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import AND, FALSE, NONE, NOT, OR, TRUE, const, contains, cval, is_const, mk, phi, rebuild, subst, subterms
from .common import cases

DESC = ("Path-condition analysis: for each class of malformed request (described by the truth of the atomic tests on arrow, ellipsis, output, ranks, sizes, path and options), the conditions under which a "
        "function can still return are evaluated three-valued; a class under which no condition fails, and none depends on it, is a request that gets through. The neighbouring well-formed classes must not be refused.")


def flat(facts):
    for f in facts:
        if f.op == "and":
            yield from flat(f.a)
        else:
            yield f


class Cls:
    """a class of requests: numbers for terms (val) and truth of tests (more); remembers which tests it decided"""

    def __init__(self, val=None, more=None):
        self.val, self.more = val or (lambda t: None), more or (lambda c: None)

    def leaf(self):
        hit = [0]

        def val(t):
            v = self.val(t)
            if v is not None:
                hit[0] += 1
                return v
            if t.op == "phi":
                try:
                    return numeval(t.a[1] if truth_of(t.a[0], None, lf) else t.a[2], val)
                except Undecided:
                    return None
            return v

        def more(c, env):
            v = self.more(c)
            if v is not None:
                hit[0] += 1
                return v
            if c.op == "any":
                return truth_of(c.a[0], env, lf)
            return None
        lf = numleaf(val, more)
        return lf, hit


BOOL = ("cmp", "any", "and", "or", "not", "isinstance", "hasattr")


def residual(t, cls):
    """what is left of a condition when the class is assumed"""
    lf, _ = cls.leaf()
    memo = {}

    def go(t, b=False):
        if (t, b) in memo:
            return memo[t, b]
        v = None
        if t.op in BOOL or b:
            try:
                v = TRUE if truth_of(t, None, lf) else FALSE
            except Undecided:
                pass
        if v is None:
            n = cls.val(t)
            if n is not None:
                v = const(n)
        if v is None:
            if t.op == "phi":
                c = go(t.a[0], True)
                v = go(t.a[1], b) if c is TRUE else go(t.a[2], b) if c is FALSE else phi(c, go(t.a[1], b), go(t.a[2], b))
            elif t.op == "and":
                v = AND(*[go(x, True) for x in t.a])
            elif t.op == "or":
                v = OR(*[go(x, True) for x in t.a])
            elif t.op == "not":
                v = NOT(go(t.a[0], True))
            else:
                v = rebuild(t, go)
        memo[t, b] = v
        return v
    return go(t, True)


def gets_through(facts, cls, good):
    """False: refused; True: nothing on the way tells it from the well-formed neighbour; None: unclear"""
    unclear = False
    for f in flat(facts):
        try:
            r = residual(f, cls)
            if r is FALSE:
                return False
            if r is not TRUE and r is not residual(f, good):
                unclear = True
        except Exception:    # noqa: BLE001
            unclear = True
    return None if unclear else True


def judge(ctx, R, name, events, cls, good, loc=None):
    """all returns of a function under one class and its well-formed neighbour"""
    loc = loc or events[0].loc
    res = [gets_through(e.facts, cls, good) for e in events]
    ctx.put(False if True in res else None if None in res else True, R, f"{name}: refused", loc, "nothing on the way to the result refuses it")


def accept(ctx, R, name, events, cls, loc=None):
    res = [gets_through(e.facts, cls, cls) for e in events]
    ctx.put(False if all(x is False for x in res) else True, R, f"{name}: accepted", loc or events[0].loc, "a well-formed request is refused")


def returns(r, fq):
    out = [e for e in r.events if e.kind == "return" and e.fq == fq]
    if not out:
        raise Undecided("no return in " + fq)
    return out


# ---------------------------------------------------------------- equations
def counts(d):
    """numbers for s.count('x') and truth for 'x' in s, of one equation or term"""
    def val(t):
        c = mcall(t, "count")
        if c is not None and len(t.a[1]) == 1 and t.a[1][0].op == "const" and cval(t.a[1][0]) in d:
            return d[cval(t.a[1][0])]
        return None

    def more(c):
        if c.op == "cmp" and c.a[0] == "in" and c.a[1].op == "const" and cval(c.a[1]) in d and c.a[2].op != "const":
            return d[cval(c.a[1])] > 0
        return None
    return Cls(val, more)


OP = frozenset({"parser.get_symbol", "parser.gen_unused_symbols", "parser.find_output_str", "parser.convert_interleaved_input", "parser.get_shape"})


def r_equation(ctx):
    R = "equation"
    fq = "parser.parse_einsum_input"
    r = ctx.run(fq, public=True, opaque=OP)
    rets = returns(r, fq)
    ops = r.params[ctx.p.fn(fq).params()[0]]
    def z(n):
        return Cls(lambda t: n if is_call(t, "builtins.len") and t.a[1] and t.a[1][0] is ops else None, lambda c: n > 0 if c is ops else None)
    judge(ctx, R, "no operands", rets, z(0), z(2))
    for name, d in (("two arrows", {"-": 2, ">": 2, "->": 2}), ("an arrow and a second '-'", {"-": 2, ">": 1, "->": 1}), ("an arrow and a second '>'", {"-": 1, ">": 2, "->": 1}),
                    ("'-' without '>'", {"-": 1, ">": 0, "->": 0}), ("'>' without '-'", {"-": 0, ">": 1, "->": 0}), ("'>' before '-'", {"-": 1, ">": 1, "->": 0})):
        judge(ctx, R, name, rets, counts(d), counts({"-": 1, ">": 1, "->": 1} if d["->"] else {"-": 0, ">": 0, "->": 0}))
    accept(ctx, R, "one arrow", rets, counts({"-": 1, ">": 1, "->": 1}))
    accept(ctx, R, "no arrow", rets, counts({"-": 0, ">": 0, "->": 0}))
    for name, d in (("one dot", {".": 1, "...": 0}), ("two dots", {".": 2, "...": 0}), ("four dots", {".": 4, "...": 1}), ("three separate dots", {".": 3, "...": 0}), ("two ellipses in one term", {".": 6, "...": 2})):
        judge(ctx, R, name, rets, counts(d), counts({".": 3, "...": 1}))
    # output
    def out_cls(times, present):
        def val(t):
            c = mcall(t, "count")
            if c is not None and len(t.a[1]) == 1 and t.a[1][0].op == "elem" and strip(t.a[1][0].a[0]) is strip(t.a[0].a[0]):
                return times
            if is_call(t, "builtins.len") and len(t.a[1]) == 1:
                y = t.a[1][0]
                if is_call(y, "builtins.set", "builtins.frozenset") and ends(y.a[1][0]):
                    return 5 - (times - 1)
                if ends(y):
                    return 5
            return None

        def ends(y):
            return any(v.op == "idx" and v.a[1] in (const(1), const(-1)) and mcall(v.a[0], "split") is not None for _, v in cases(y))

        def more(c):
            if c.op == "cmp" and c.a[0] == "in" and c.a[1].op == "elem" and c.a[2].op != "const" and ends(c.a[1].a[0]):
                if c.a[2].op == "idx" and c.a[2].a[1].op == "slice" and strip(c.a[2].a[0]) is strip(c.a[1].a[0]):
                    return times > 1    # met before (or again after) in the output itself
                whole = {v.a[0].a[0].a[0] for _, v in cases(c.a[1].a[0]) if v.op == "idx" and mcall(v.a[0], "split") is not None}
                return True if c.a[2] in whole else present
            return None
        return Cls(val, more)
    judge(ctx, R, "an index twice in the output", rets, out_cls(2, True), out_cls(1, True))
    judge(ctx, R, "an output index that is in no operand", rets, out_cls(1, False), out_cls(1, True))
    accept(ctx, R, "a proper output", rets, out_cls(1, True))
    # number of operands
    def num(k):
        def val(t):
            if is_call(t, "builtins.len") and len(t.a[1]) == 1:
                y = t.a[1][0]
                if mcall(y, "split") is not None and y.a[1] and is_const(y.a[1][0], ","):
                    return 3
                if any(v.op == "idx" and v.a[0] is ops and v.a[1].op == "slice" for _, v in cases(y)):
                    return k
            c = mcall(t, "count")
            if c is not None and t.a[1] and is_const(t.a[1][0], ","):
                return 2
            return None
        return Cls(val, lambda c: None)
    judge(ctx, R, "more operands than terms", rets, num(4), num(3))
    judge(ctx, R, "fewer operands than terms", rets, num(2), num(3))
    accept(ctx, R, "as many operands as terms", rets, num(3))
    shp = r.params.get("shapes")
    if shp is not None:
        def some(which):
            """only this one of many operands has a shape: 0 the first, -1 the last, None: none has"""
            def more(c):
                if c is shp:
                    return True
                if c.op == "isinstance" and c.a[0] is mk("idx", ops, const(0)) and "str" in show(c):
                    return True
                if c.op == "any":
                    k, neg = c.a[0], False
                    if k.op == "not":
                        k, neg = k.a[0], True
                    it = strip(c.a[1])
                    if k.op == "hasattr" and k.a[1] == "shape" and k.a[0] is mk("elem", c.a[1], 0) and it.op == "idx" and it.a[0] is ops and it.a[1].op == "slice" and all(
                            x.op == "const" for x in it.a[1].a):
                        lo, hi, st = (cval(x) for x in it.a[1].a)
                        xs = [False] * 6
                        if which is not None:
                            xs[1 if which == 0 else -1] = True
                        return any(x != neg for x in xs[lo:hi:st])
                return None
            return Cls(None, more)
        for which, what in ((0, "first"), (-1, "last")):
            judge(ctx, R, f"arrays where shapes are announced (the {what} operand)", rets, some(which), some(None))
        accept(ctx, R, "shapes where shapes are announced", rets, some(None))


# ---------------------------------------------------------------- operands against the equation
PATH_OP = frozenset({"parser.parse_einsum_input", "parser.get_shape", "helpers.flop_count", "helpers.compute_size_by_dict", "helpers.find_contraction", "blas.can_blas", "parser.find_output_shape",
                     "paths.get_path_fn", "contract._choose_memory_arg", "contract.PathInfo"})


def r_operands(ctx):
    R = "operands"
    fq = "contract.contract_path"
    r = ctx.run(fq, public=True, opaque=PATH_OP)
    rets = returns(r, fq)

    def is_term(t):
        return t.op == "elem" and mcall(strip(t.a[0]), "split") is not None or t.op == "idx" and mcall(strip(t.a[0]), "split") is not None or (
            t.op == "idx" and t.a[0].op == "elem" and contains(t.a[0].a[0], lambda u: mcall(u, "split") is not None))

    def is_shape(t):
        return not is_term(t) and contains(t, lambda u: is_call(u, "parser.get_shape") or is_call(u, "parser.parse_einsum_input"))

    def a_shape(y):
        return y.op == "idx" and y.a[1].op == "pos" and is_shape(y) or y.op == "elem" and is_shape(y) or is_call(y, "parser.get_shape")

    def ranks(nt, ns):
        def val(t):
            if is_call(t, "builtins.len") and len(t.a[1]) == 1:
                y = t.a[1][0]
                if is_term(y):
                    return nt
                if a_shape(y):
                    return ns
            return None
        return Cls(val)
    judge(ctx, R, "an operand with more dimensions than indices", rets, ranks(2, 3), ranks(2, 2))
    judge(ctx, R, "an operand with fewer dimensions than indices", rets, ranks(3, 2), ranks(2, 2))

    def sizes(known, dim):
        def is_dim(t):
            t = strip(t, "builtins.int")
            return t.op == "idx" and t.a[1].op in ("pos", "elem") and is_shape(t.a[0]) or t.op == "elem" and is_shape(t.a[0])

        def tab(t):
            return t.op == "mu" and r.eng.muinfo.get(t, (None,))[0] == "heap"

        def val(t):
            if t.op == "idx" and tab(t.a[0]) and not contains(t.a[1], lambda u: u.op == "pos"):
                return known
            if t.op == "get" and tab(t.a[0]):
                return known
            if is_call(t, "builtins.int") and len(t.a[1]) == 1 and is_dim(t):
                return dim
            if t.op == "idx" and is_dim(t):
                return dim
            if is_call(t, "builtins.len") and len(t.a[1]) == 1 and (is_term(t.a[1][0]) or a_shape(t.a[1][0])):
                return 2
            return None

        def more(c):
            if c.op == "cmp" and c.a[0] == "in" and tab(c.a[2]) and not c.a[1].op == "const":
                return True
            if c.op == "cmp" and c.a[0] == "in" and is_dim(c.a[1]) and c.a[2].op in ("tup", "lst", "set"):
                vs = []
                for x in c.a[2].a:
                    v = val(x) if x.op != "const" else cval(x)
                    if v is None:
                        return None
                    vs.append(v)
                return dim in vs
            return None
        return Cls(val, more)
    judge(ctx, R, "one index with two sizes, neither being 1", rets, sizes(3, 4), sizes(3, 3))
    judge(ctx, R, "one index with two sizes, neither being 1 (reversed)", rets, sizes(4, 3), sizes(3, 3))
    accept(ctx, R, "the same size again", rets, sizes(3, 3))
    accept(ctx, R, "size 1 where it was larger", rets, sizes(3, 1))
    accept(ctx, R, "larger where it was size 1", rets, sizes(1, 3))


# ---------------------------------------------------------------- explicit paths
def r_path(ctx):
    R = "path"
    fq = "contract.contract_path"
    r = ctx.run(fq, public=True, opaque=PATH_OP)
    rets = returns(r, fq)

    def lst(t):
        t = strip(t, "builtins.list", "builtins.tuple")
        return t.op == "out" and contains(t, lambda u: u.op == "dropall" or u.op == "popped")

    def left(n):
        def val(t):
            if is_call(t, "builtins.len") and len(t.a[1]) == 1 and lst(t.a[1][0]):
                return n
            return None

        def more(c):
            if c.op == "cmp" and c.a[0] == "eq":
                for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                    if lst(x) and y.op in ("lst", "tup") and len(y.a) == 1:
                        return n == 1
            return None
        return Cls(val, more)
    judge(ctx, R, "a path that leaves several tensors", rets, left(2), left(1))
    accept(ctx, R, "a path that leaves one tensor", rets, left(1))


# ---------------------------------------------------------------- options
def r_options(ctx):
    R = "options"
    fq = "contract.contract_path"
    r = ctx.run(fq, public=True, opaque=PATH_OP)
    kw = mk("param", fq, "kwargs")
    kwt = r.params.get("kwargs", kw)

    def extra(n):
        def more(c):
            if c.op == "dictdel" and c.a[0] is kwt or c is kwt:
                return n > 0
            return None

        def val(t):
            if is_call(t, "builtins.len") and len(t.a[1]) == 1 and (t.a[1][0] is kwt or t.a[1][0].op == "dictdel" and t.a[1][0].a[0] is kwt):
                return n
            return None
        return Cls(val, more)
    judge(ctx, R, "an option contract_path does not know", returns(r, fq), extra(1), extra(0))
    accept(ctx, R, "no further options", returns(r, fq), extra(0))
    fq = "contract.contract_expression"
    r = ctx.run(fq, public=True, opaque=frozenset({"contract.contract", "contract.contract_path", "parser.convert_interleaved_input"}))
    rets = returns(r, fq)
    opt = r.params["optimize"]

    def value(v):
        def more(c):
            if c is opt:
                return bool(v)
            if c.op == "cmp" and c.a[0] in ("is", "eq") and opt in c.a[1:]:
                o = c.a[2] if c.a[1] is opt else c.a[1]
                return cval(o) is v if o.op == "const" else None
            return None
        return Cls(None, more)
    judge(ctx, R, "an expression without optimization", rets, value(False), value("auto"))
    accept(ctx, R, "an expression with optimization", rets, value("auto"))
    accept(ctx, R, "an expression with optimization (True)", rets, value(True))
    kwt = r.params.get("kwargs")
    for o in ("out", "backend"):
        def given(yes, o=o):
            def more(c):
                if c.op == "cmp" and c.a[0] == "is" and NONE in c.a[1:]:
                    x = c.a[1] if c.a[2] is NONE else c.a[2]
                    if x.op == "get" and x.a[0] is kwt and is_const(x.a[1], o) or x is r.params.get(o):
                        return not yes
                if c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1], o) and c.a[2] is kwt:
                    return yes
                if c.op == "get" and c.a[0] is kwt and is_const(c.a[1], o):
                    return yes
                return None
            return Cls(None, more)
        judge(ctx, R, f"`{o}` when an expression is built", rets, given(True), given(False))
        accept(ctx, R, f"no `{o}` when an expression is built", rets, given(False))
    fq = "contract.ContractExpression.__call__"
    r = ctx.run(fq, public=True, opaque=frozenset({"contract.parse_backend", "contract._core_contract", "contract.infer_backend", "contract.ContractExpression._get_evaluated_constants",
                                                    "contract.ContractExpression._contract", "contract.ContractExpression._contract_with_conversion"}))
    rets = returns(r, fq)
    arr = r.params.get("arrays")
    ec = r.params.get("evaluate_constants")
    for c0 in (True, False):
        def arrays(n, c0=c0):
            def val(t):
                if is_call(t, "builtins.len") and len(t.a[1]) == 1 and t.a[1][0] is arr:
                    return n + (2 if c0 else 0)
                if t.op == "attr" and t.a[1] == "num_args":
                    return 2
                if t.op == "attr" and t.a[1] == "_full_num_args":
                    return 4
                return None
            return Cls(val, lambda c: c0 if c is ec else None)
        w = " (constants being evaluated)" if c0 else ""
        judge(ctx, R, "too few arrays for an expression" + w, rets, arrays(1), arrays(2))
        judge(ctx, R, "too many arrays for an expression" + w, rets, arrays(3), arrays(2))
        accept(ctx, R, "as many arrays as an expression takes" + w, rets, arrays(2))


# ---------------------------------------------------------------- optimizers
def r_optimizers(ctx):
    R = "optimizers"
    fq = "paths.BranchBound.__init__"
    r = ctx.run(fq, public=True, opaque=frozenset({"paths.get_better_fn"}))
    nb = r.params["nbranch"]
    evs = [e for e in r.events if e.kind == "setattr" and e.fq == fq]
    if not evs:
        raise Undecided("no state set by BranchBound")

    def br(n):
        def val(t):
            return n if t is nb else None

        def more(c):
            if c.op == "cmp" and c.a[0] == "is" and nb in c.a[1:] and NONE in c.a[1:]:
                return False
            if c is nb:
                return bool(n)
            return None
        return Cls(val, more)
    last = [evs[-1]]
    judge(ctx, R, "a branching search with no branches", last, br(0), br(1))
    accept(ctx, R, "a branching search with one branch", last, br(1))
    fq = "path_random.RandomOptimizer.__init__"
    r = ctx.run(fq, public=True, opaque=frozenset({"paths.get_better_fn"}))
    mn = r.params.get("minimize")
    evs = [e for e in r.events if e.kind == "setattr" and e.fq == fq]
    if mn is None or not evs:
        raise Undecided("minimize")

    def name(s):
        def more(c):
            if c.op == "cmp" and c.a[0] == "in" and c.a[1] is mn and c.a[2].op in ("tup", "lst", "set", "dict"):
                xs = [x if c.a[2].op != "dict" else x[0] for x in c.a[2].a]
                return any(is_const(x, s) for x in xs) if all(x.op == "const" for x in xs) else None
            if c.op == "cmp" and c.a[0] == "eq" and mn in c.a[1:]:
                o = c.a[2] if c.a[1] is mn else c.a[1]
                return is_const(o, s) if o.op == "const" else None
            return None
        return Cls(None, more)
    judge(ctx, R, "an objective the random search does not know", [evs[-1]], name("no-such-objective"), name("flops"))
    for s in ("flops", "size"):
        accept(ctx, R, f"the objective {s}", [evs[-1]], name(s))


# ---------------------------------------------------------------- names and limits
def r_names(ctx):
    R = "names and limits"
    keys = set()
    for fq, what, want_in in (("paths.get_path_fn", "an unknown path optimizer", False), ("paths.register_path_fn", "registering a taken name", True)):
        r = ctx.run(fq, public=True)
        evs = [e for e in r.events if e.kind == "return" and e.fq == fq] if fq.endswith("get_path_fn") else [e for e in r.events if e.kind == "mutate" and e.op == "setitem"]
        if not evs:
            ctx.unk(R, what, ctx.p.fn(fq).loc, "no result")
            continue

        def is_tab(t):
            return contains(t, lambda u: u.op == "gvar" and u.a[-1] == "_PATH_OPTIONS")

        def known(yes):
            def more(c):
                if c.op == "cmp" and c.a[0] == "in" and is_tab(c.a[2]):
                    return yes
                if c.op == "cmp" and c.a[0] == "is" and NONE in c.a[1:] and any(x.op == "get" and is_tab(x.a[0]) for x in c.a[1:]):
                    return not yes
                return None
            return Cls(None, more)
        if fq.endswith("get_path_fn") and all(e.value.op == "idx" and is_tab(e.value.a[0]) for e in evs):
            ctx.ok(R, what + ": refused", evs[0].loc, "a plain look-up fails by itself")
        else:
            judge(ctx, R, what, evs, known(want_in), known(not want_in))
        accept(ctx, R, what.replace("unknown", "known").replace("taken", "free"), evs, known(not want_in))
        par = r.params[ctx.p.fn(fq).params()[0]]
        keys |= {subst(c.a[1], {par: const("NAME")}) for e in evs for f in e.facts for c in subterms(f) if c.op == "cmp" and c.a[0] == "in" and is_tab(c.a[2])}
        keys |= {subst(e.args[0], {par: const("NAME")}) for e in evs if e.kind == "mutate"}
        keys |= {subst(s.a[1], {par: const("NAME")}) for e in evs if e.kind == "return" for s in subterms(e.value) if s.op in ("idx", "get") and is_tab(s.a[0])}
    plain = {k for k in keys if all(s.op in ("const", "call", "meth", "attr") for s in subterms(k))}
    ctx.put(True if len(keys) == 1 else False if len(plain) > 1 else None, R, "optimizers are registered, tested and looked up under one spelling of their name", ctx.p.fn("paths.get_path_fn").loc,
            "different keys: " + ", ".join(sorted(show(k) for k in keys)))
    fq = "contract._choose_memory_arg"
    r = ctx.run(fq)
    rets = returns(r, fq)
    ml = r.params[ctx.p.fn(fq).params()[0]]

    def lim(v):
        def more(c):
            if c is ml:
                return bool(v)
            if c.op == "cmp" and c.a[0] in ("eq", "is") and ml in c.a[1:]:
                o = c.a[2] if c.a[1] is ml else c.a[1]
                if o.op == "const":
                    return cval(o) == v
                if o.op == "neg" and o.a[0].op == "const":
                    return -cval(o.a[0]) == v
            if c.op == "isinstance" and c.a[0] is ml:
                ty = show(c)
                return ("str" in ty) if isinstance(v, str) else ("int" in ty or "float" in ty) if v is not None else False
            return None
        return Cls(lambda t: v if t is ml and isinstance(v, int) else None, more)
    for v in ("min_input", 0, -2):
        judge(ctx, R, f"memory_limit={v!r}", rets, lim(v), lim(5))
    for v in ("max_input", None, -1, 1, 5):
        accept(ctx, R, f"memory_limit={v!r}", rets, lim(v))


def check(ctx):
    ctx.rule("names and limits", r_names)
    ctx.rule("equation", r_equation)
    ctx.rule("operands", r_operands)
    ctx.rule("path", r_path)
    ctx.rule("options", r_options)
    ctx.rule("optimizers", r_optimizers)
