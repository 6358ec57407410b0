"""C25: every documented option reaches what it controls."""
import ast

from sa.engine import is_call, mcall
from sa.kit import Undecided, numeval, numleaf, pick, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import FALSE, NONE, T, TRUE, const, contains, cval, is_const, mk, subterms
from .common import ABSENT, Fails, call_arg, cases, dict_look, pointeval
from .tables import Fnv, Tables

DESC = ("Option flow: for every public function and class, the call sites that carry an option on are found and the value passed is compared with the option of the caller (unchanged, or as documented for its special values); "
        "at the end of the chain the construct the option controls is evaluated at small points (number of branches, temperature, cost cap, einsum options).")

CALLS = frozenset({"contract.contract", "contract.contract_path", "contract._core_contract", "contract._einsum", "contract._tensordot", "contract._transpose", "contract.ContractExpression",
                   "contract.ContractExpression.__init__", "contract.parse_backend", "contract.shape_only", "contract._filter_einsum_defaults", "parser.parse_einsum_input",
                   "parser.convert_interleaved_input", "paths.ssa_greedy_optimize", "paths.branch", "paths.ssa_to_linear", "paths.BranchBound", "paths.BranchBound.__init__", "paths.DynamicProgramming",
                   "path_random.RandomGreedy", "path_random.RandomGreedy.__init__", "path_random.RandomOptimizer.__init__", "path_random.ssa_path_compute_cost", "paths._get_candidate", "paths._push_candidate",
                   "path_random.RandomOptimizer.setup", "path_random.RandomOptimizer.parallel.setter", "backends.dispatch.get_func", "backends.dispatch.has_einsum", "parser.has_valid_einsum_chars_only",
                   "parser.convert_to_valid_einsum_chars", "parser.find_output_str", "helpers.compute_size_by_dict", "helpers.flop_count", "helpers.find_contraction", "blas.can_blas"})


def sig(ctx, callee):
    """function behind a callee (the constructor of a class)"""
    q = callee
    if q in ctx.p.fns:
        return ctx.p.fns[q], False
    if q + ".__init__" in ctx.p.fns:
        return ctx.p.fns[q + ".__init__"], True
    raise Undecided("callee " + q)


def carried(ctx, e, callee, name):
    """the value a call passes for an option: a term, None (its default is used), or Undecided"""
    fn, m = sig(ctx, callee)
    v = call_arg(e, fn, name, has_self=m)
    if v is not None:
        return v
    for k, d in e.kws:
        if k is None:
            try:
                x = dict_look(d, name)
            except Undecided:
                raise Undecided(f"{name} may be in **{show(d, 3)}")
            if x is not ABSENT and x.op != "entry":
                return x
    if any(a.op == "star" for a in e.args) and name in fn.params():
        ps = fn.params()[1 if m else 0:]
        if not (fn.node.args.vararg is not None or name in [a.arg for a in fn.node.args.kwonlyargs]):
            raise Undecided(f"{name} may be in *args of {show(e.term, 3)}")
        del ps
    return None


def same(ctx, R, fq, r, e, callee, name, src=None, accept=lambda t: False):
    """the call passes the caller's option on unchanged"""
    P = r.params
    want = P.get(src or name)
    nm = f"{short(fq)}: {name} -> {short(callee)}"
    if want is None:
        ctx.unk(R, nm, e.loc, f"no parameter {src or name}")
        return
    try:
        v = carried(ctx, e, callee, name)
    except Undecided as u:
        ctx.unk(R, nm, e.loc, str(u))
        return
    if v is None:
        ctx.bad(R, nm, e.loc, f"{name} is not passed on: its default is used whatever the caller says")
    elif v is want or accept(v):
        ctx.ok(R, nm, e.loc)
    elif v.op == "const" or v.op == "param" or not contains(v, lambda u: u is want):
        ctx.bad(R, nm, e.loc, f"{show(v, 4)} is passed instead of {name}")
    else:
        ctx.unk(R, nm, e.loc, show(v, 4))


def short(q):
    return q.split(".", 1)[1] if "." in q else q


def events(ctx, r, callee):
    return [e for e in r.events if e.kind == "call" and (e.callee is mk("func", callee) or e.callee is mk("class", callee) or is_call(e.term, callee))]


def rest(ctx, R, fq, r, e, callee, private=("_gen_expression", "_constants_dict", "backend", "out"), src="kwargs", probe=("order", "casting", "dtype")):
    """**kwargs are passed on"""
    nm = f"{short(fq)}: other options -> {short(callee)}"
    kw = r.params.get(src)
    if kw is None:
        ctx.unk(R, nm, e.loc, f"no **{src}")
        return
    given = dict((k, v) for k, v in e.kws if k is not None)
    stars = [d for k, d in e.kws if k is None]
    bad = []
    for p in probe:
        if p in given:
            v = given[p]
            if not (v.op in ("get", "idx") and v.a[0] is kw):
                bad.append((None, p, show(v, 3)))
            continue
        got = None
        for d in stars:
            try:
                x = dict_look(d, p)
            except Undecided as u:
                bad.append((None, p, str(u)))
                got = x = None
                break
            if x is not ABSENT:
                got = x
        if got is None:
            if not (bad and bad[-1][1] == p):
                bad.append((False, p, "absent"))
        elif got.op == "entry" and got.a[0] is kw or got.op in ("get", "idx") and got.a[0] is kw:
            pass
        elif got.op == "phi" and any(x is ABSENT for _, x in cases(got)):
            bad.append((None, p, show(got, 4)))
        else:
            bad.append((None, p, show(got, 4)))
    if not bad:
        ctx.ok(R, nm, e.loc)
    else:
        f = [b for b in bad if b[0] is False]
        ctx.put(False if f else None, R, nm, e.loc, f"{(f or bad)[0][1]} given to {short(fq)} does not reach {short(callee)}: {(f or bad)[0][2]}")


# ---------------------------------------------------------------- contract and friends
def opt_value(t, opt, v):
    """value of a term for a given `optimize`"""
    def leaf(c, e):
        if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[2].op == "const":
            x = opt_value(c.a[1], opt, v)
            y = cval(c.a[2])
            return x is y if x in (True, False, None) or y in (True, False, None) else x == y
        if c is opt:
            return bool(v)
        if c.op == "cmp" and c.a[0] == "in" and c.a[1] is opt and c.a[2].op in ("tup", "lst", "set"):
            return any(z.op == "const" and cval(z) is v for z in c.a[2].a)
        return None
    x = pick(t, leaf)
    if x is opt:
        return v
    if x.op == "const":
        return cval(x)
    raise Undecided("optimize " + show(t, 4))


def r_contract(ctx):
    R = "contract"
    fq = "contract.contract"
    r = ctx.run(fq, public=True, opaque=CALLS - {fq})
    P = r.params
    opt = P.get("optimize")
    plain, plan, run, build = (events(ctx, r, q) for q in ("contract._einsum", "contract.contract_path", "contract._core_contract", "contract.ContractExpression"))
    for what, evs in (("plain einsum", plain), ("planning", plan), ("execution", run)):
        if not evs:
            ctx.unk(R, what, ctx.p.fn(fq).loc, "no call found")

    def bk(t):
        return is_call(t, "contract.parse_backend") and P["backend"] in t.a[1] or is_call(t, "contract.parse_backend") and P["backend"] in dict(t.a[2]).values()
    for e in plain:
        for name in ("out", "backend"):
            v = dict((k, x) for k, x in e.kws if k).get(name)
            nm = f"contract: {name} -> _einsum"
            if v is None:
                ctx.put(None if any(k is None and x is not P.get("kwargs") for k, x in e.kws) else False, R, nm, e.loc, f"{name} is ignored without optimization")
            else:
                ctx.put(True if v is P[name] and name == "out" or name == "backend" and bk(v) else False if v.op == "const" else None, R, nm, e.loc, show(v, 4))
        rest(ctx, R, fq, r, e, "contract._einsum")
        branch_of(ctx, R, e, opt, {False: True, True: False, None: False, "greedy": False}, "plain einsum for optimize=False only")
    for e in plan:
        same(ctx, R, fq, r, e, "contract.contract_path", "memory_limit")
        same(ctx, R, fq, r, e, "contract.contract_path", "use_blas")
        try:
            v = carried(ctx, e, "contract.contract_path", "optimize")
            if v is None:
                ctx.bad(R, "contract: optimize -> contract_path", e.loc, "the strategy is not passed on")
            else:
                for given, want in ((True, "auto"), (None, "auto"), ("greedy", "greedy"), ("dp", "dp")):
                    got = opt_value(v, opt, given)
                    ctx.put(got == want or want == "auto" and got in (True, None), R, f"contract: optimize={given!r} -> contract_path", e.loc, f"becomes {got!r}")
        except Undecided as u:
            ctx.unk(R, "contract: optimize -> contract_path", e.loc, str(u))
        branch_of(ctx, R, e, opt, {False: False, True: True, None: True, "greedy": True}, "a path is searched unless optimize=False")
    for e in run:
        same(ctx, R, fq, r, e, "contract._core_contract", "backend", accept=bk)
        same(ctx, R, fq, r, e, "contract._core_contract", "out")
        rest(ctx, R, fq, r, e, "contract._core_contract")
    for e in build:
        rest(ctx, R, fq, r, e, "contract.ContractExpression")


def r_plan(ctx):
    """contract_path: what `optimize` selects, and where the other options go"""
    R = "planning"
    fq = "contract.contract_path"
    OP = frozenset({"parser.parse_einsum_input", "parser.get_shape", "contract._choose_memory_arg", "paths.get_path_fn", "helpers.find_contraction", "helpers.flop_count",
                    "helpers.compute_size_by_dict", "blas.can_blas", "parser.find_output_shape", "contract.PathInfo", "contract.PathInfo.__init__"})
    r = ctx.run(fq, public=True, opaque=OP)
    f = ctx.p.fn(fq)
    P = r.params
    opt = P.get("optimize")
    for e in events(ctx, r, "parser.parse_einsum_input"):
        same(ctx, R, fq, r, e, "parser.parse_einsum_input", "shapes")
    for e in events(ctx, r, "contract._choose_memory_arg"):
        same(ctx, R, fq, r, e, "contract._choose_memory_arg", "memory_limit")
    kinds = {"False": False, "True": True, "None": None, "'greedy'": "greedy", "a path": "path", "an optimizer": "optimizer"}

    def leaf_for(v):
        def given(t):
            """what a term made of `optimize` is: a Python value, or Undecided"""
            x = pick(t, leaf)
            if x is opt:
                return v
            if x.op == "const":
                return cval(x)
            raise Undecided("optimize " + show(t, 3))

        def leaf(c, en):
            if c.op == "isinstance" and contains(c.a[0], lambda u: u is opt):
                g = given(c.a[0])
                cl = {u.a[0].rsplit(".", 1)[-1] for u in subterms(c.a[1]) if u.op in ("class", "func", "ext")}
                isstr = isinstance(g, str) and g not in ("path", "optimizer")
                if cl <= {"str", "PathOptimizer"} and cl:
                    return "str" in cl and isstr or "PathOptimizer" in cl and g == "optimizer"
                return None
            if is_call(c, "builtins.callable") and contains(c, lambda u: u is opt):
                return given(c.a[1][0]) == "optimizer"
            if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[2].op == "const" and contains(c.a[1], lambda u: u is opt):
                g, y = given(c.a[1]), cval(c.a[2])
                return g is y if g in (True, False, None) or y in (True, False, None) else g == y
            if c is opt:
                return bool(v)
            if c.op in ("get", "idx") and c.a[0] is P.get("kwargs"):
                return False
            if c.op == "cmp" and is_call(c.a[1], "builtins.len") and c.a[2].op == "const":
                return {"lt": 5 < cval(c.a[2]), "le": 5 <= cval(c.a[2]), "eq": False, "gt": 5 > cval(c.a[2]), "ge": 5 >= cval(c.a[2])}.get(c.a[0])
            if c.op == "cmp" and is_call(c.a[2], "builtins.len") and c.a[1].op == "const":
                return {"lt": cval(c.a[1]) < 5, "le": cval(c.a[1]) <= 5, "eq": False}.get(c.a[0])
            return None
        return leaf, given
    ret = r.eng.freeze(r.ret, r.state)
    for nm, v in kinds.items():
        leaf, given = leaf_for(v)
        name = f"contract_path: optimize={nm}"
        try:
            t = pick(ret, leaf)
            if t.op != "tup" or len(t.a) != 2:
                raise Undecided("result " + show(t, 3))
            path = strip(pick(t.a[0], leaf), "builtins.list", "builtins.tuple")
            search = path.op == "call" and path.a[0].op in ("call", "phi", "param")
            if v is False:
                ctx.put(False if search or path is opt else True if path.op in ("lst", "tup", "list") else None, R, name, f.loc, f"the path is {show(path, 4)}")
            elif v == "path":
                ctx.put(True if path is opt or path.op == "phi" and given(path) == "path" else False if path.op in ("lst", "call") else None, R, name, f.loc, f"the path is {show(path, 4)}")
            else:
                if not search:
                    ctx.put(False if path.op == "lst" or path is opt else None, R, name, f.loc, f"the path is {show(path, 4)}")
                    continue
                fn = pick(path.a[0], leaf)
                if v == "optimizer":
                    ctx.put(True if fn is opt else False if is_call(fn, "paths.get_path_fn") else None, R, name, f.loc, f"the path is found by {show(fn, 4)}")
                elif is_call(fn, "paths.get_path_fn"):
                    got = given(fn.a[1][0])
                    want = "auto" if v in (True, None) else v
                    ctx.put(got == want, R, name, f.loc, f"strategy {got!r} is used")
                else:
                    ctx.put(False if fn is opt else None, R, name, f.loc, f"the path is found by {show(fn, 4)}")
                m = path.a[1][3] if len(path.a[1]) > 3 else dict(path.a[2]).get("memory_limit")
                if m is None or m is NONE:
                    ctx.bad(R, name + ": memory_limit", f.loc, "the search is not told the memory limit")
                else:
                    m = pick(m, leaf)
                    ctx.put(True if contains(m, lambda u: u is P.get("memory_limit")) else False if m.op == "const" else None, R, name + ": memory_limit", f.loc, show(m, 4))
        except Undecided as u:
            ctx.unk(R, name, f.loc, str(u))
    # use_blas
    ub = P.get("use_blas")
    flags = [x.a[4] for e in r.events if e.kind == "mutate" and e.op == "append" and e.args for x in e.args[:1] if x.op == "tup" and len(x.a) == 5]
    if not flags:
        ctx.unk(R, "use_blas", f.loc, "no contraction steps found")
    for t in flags:
        for v in (True, False):
            try:
                x = pick(t, numleaf(lambda u: 5 if is_call(u, "builtins.len") else None, lambda c, en: v if c is ub else None))
            except Undecided as u:
                ctx.unk(R, f"use_blas={v}", f.loc, str(u))
                continue
            if v:
                ctx.put(True if is_call(x, "blas.can_blas") else False if x.op == "const" else None, R, "use_blas=True: BLAS may be used", f.loc, show(x, 3))
            else:
                ctx.put(True if x is FALSE or x is NONE else False if is_call(x, "blas.can_blas") or x.op == "const" else None, R, "use_blas=False: no BLAS", f.loc, show(x, 3))


def branch_of(ctx, R, e, opt, want, nm):
    for v, w in want.items():
        def leaf(c, en):
            if contains(c, lambda u: u is opt):
                if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[2].op == "const":
                    try:
                        x = opt_value(c.a[1], opt, v)
                    except Undecided:
                        return None
                    y = cval(c.a[2])
                    return x is y if x in (True, False, None) or y in (True, False, None) else x == y
                if c is opt:
                    return bool(v)
                return None
            return None
        try:
            got = all(truth_of(c, None, leaf) for c in e.facts if contains(c, lambda u: u is opt))
            ctx.put(got == w, R, f"{nm}: {v!r}", e.loc, f"with optimize={v!r} this call is {'made' if got else 'not made'}")
        except Undecided as u:
            ctx.unk(R, f"{nm}: {v!r}", e.loc, str(u))


def r_expression(ctx):
    R = "expressions"
    fq = "contract.contract_expression"
    r = ctx.run(fq, public=True, opaque=CALLS - {fq})
    evs = events(ctx, r, "contract.contract")
    if not evs:
        raise Undecided("contract is not called")
    for e in evs:
        for name in ("optimize", "memory_limit", "use_blas"):
            same(ctx, R, fq, r, e, "contract.contract", name)
        rest(ctx, R, fq, r, e, "contract.contract")
    # kept by the expression
    init = ctx.run("contract.ContractExpression.__init__", public=True)
    kw = init.params.get("kwargs")
    at = [e for e in init.evs("setattr") if e.value is kw or strip(e.value, "builtins.dict") is kw or mcall(e.value, "copy") is kw]
    ctx.put(True if at else None if any(contains(e.value, lambda u: u is kw) for e in init.evs("setattr")) or any(e.kind in ("call", "mutate") and any(contains(a, lambda u: u is kw) for a in list(e.args) + [v for _, v in e.d.get("kws") or ()]) for e in init.events) else False, R, "an expression keeps its options", ctx.p.fn("contract.ContractExpression.__init__").loc, "the options given are not kept")
    names = {e.name for e in at}
    for q in ("contract.ContractExpression._contract",):
        if q not in ctx.p.fns:
            ctx.unk(R, "an expression uses its options", "", "no _contract")
            continue
        rr = ctx.run(q, opaque=CALLS)
        for e in events(ctx, rr, "contract._core_contract"):
            stars = [d for k, d in e.kws if k is None]
            ok = any(d.op == "attr" and d.a[1] in names or contains(d, lambda u: u.op == "attr" and u.a[1] in names) for d in stars)
            ctx.put(True if ok else False if not stars else None, R, "an expression uses its options", e.loc, "the options given at construction are not used")
            for name in ("out", "backend", "evaluate_constants"):
                same(ctx, R, q, rr, e, "contract._core_contract", name)


def r_execute(ctx):
    R = "execution"
    fq = "contract._core_contract"
    r = ctx.run(fq, public=True, opaque=CALLS - {fq})
    P = r.params

    def bk(t):
        return is_call(t, "contract.parse_backend") and (P["backend"] in t.a[1] or P["backend"] in dict(t.a[2]).values())
    n = 0
    for callee in ("contract._einsum", "contract._tensordot", "contract._transpose"):
        for e in events(ctx, r, callee):
            n += 1
            nm = f"_core_contract: backend -> {short(callee)}"
            v = dict((k, x) for k, x in e.kws if k).get("backend")
            if v is None and callee != "contract._einsum":
                v = call_arg(e, ctx.p.fn(callee), "backend")
            if v is None:
                ctx.put(None if any(k is None and x is not P.get("kwargs") for k, x in e.kws) else False, R, nm, e.loc, "the backend asked for is not passed on")
            else:
                ctx.put(True if bk(v) else False if v.op == "const" or v is P["backend"] else None, R, nm, e.loc, show(v, 4))
            if callee == "contract._einsum":
                rest(ctx, R, fq, r, e, callee)
    if not n:
        raise Undecided("no operations")
    # options tensordot cannot take keep it from being used
    kw = P.get("kwargs")
    for e in events(ctx, r, "contract._tensordot"):
        nm = "einsum options -> tensordot"
        if any(k is None and contains(d, lambda u: u is kw) for k, d in e.kws):
            ctx.unk(R, nm, e.loc, "options are passed to tensordot")
            continue

        def leaf(c, en):
            if c is kw or strip(c, "builtins.dict", "builtins.bool", "builtins.len") is kw:
                return True
            if c.op == "cmp" and is_call(c.a[1], "builtins.len") and c.a[1].a[1][0] is kw:
                return numeval(c, lambda u: 1 if u is c.a[1] else None)
            return None
        st = None
        for k in e.facts:
            try:
                if not truth_of(k, None, leaf):
                    st = True
            except Undecided:
                if contains(k, lambda u: u is kw) and st is None:
                    st = "?"
        ctx.put(True if st is True else None if st == "?" else False, R, nm, e.loc, "options such as dtype are dropped where tensordot replaces einsum")
    # parse_backend: what was asked for
    f = ctx.p.fn("contract.parse_backend")
    q = ctx.run("contract.parse_backend", public=True, opaque=CALLS - {"contract.parse_backend"} | {"contract.infer_backend", "backends.dispatch.has_tensordot"})
    b = q.params["backend"]
    t = q.eng.freeze(q.ret, q.state)

    def leaf(c, en):
        if c.op == "cmp" and c.a[0] in ("eq", "is") and c.a[1] is b:
            return False        # neither None nor 'auto'
        if c.op == "cmp" and c.a[0] == "in" and c.a[1] is b:
            return False
        return True if c is b else None
    try:
        v = pick(t, leaf)
        ctx.put(True if v is b or mcall(v, "lower") is b else False if not contains(v, lambda u: u is b) else None, R, "a backend asked for is used", f.loc, f"becomes {show(v, 4)}")
    except Undecided as u:
        ctx.unk(R, "a backend asked for is used", f.loc, str(u))


def r_einsum(ctx):
    R = "einsum options"
    fq = "contract._einsum"
    r = ctx.run(fq, public=True, opaque=CALLS - {fq})
    kw = r.params["kwargs"]
    looks = [e for e in r.events if e.kind == "call" and is_call(e.term, "backends.dispatch.get_func")]
    calls = [e for e in r.events if e.kind == "call" and is_call(e.callee, "backends.dispatch.get_func")]
    for e in looks:
        b = call_arg(e, ctx.p.fn("backends.dispatch.get_func"), "backend")
        ok = b is not None and (b.op in ("get", "idx", "entry") and b.a[0] is kw and is_const(b.a[1], "backend"))
        ctx.put(True if ok else False if b is None or b.op == "const" else None, R, "_einsum: the backend asked for", e.loc, show(b, 3) if b is not None else "default backend")
        if ok and b.op == "get":
            ctx.put(True if is_const(b.a[2], "numpy") else None, R, "_einsum: default backend", e.loc, show(b, 3))
    if not calls:
        raise Undecided("no call of the library")
    for e in calls:
        stars = [d for k, d in e.kws if k is None]
        base = [d.a[1][0] if is_call(d, "contract._filter_einsum_defaults") else d for d in stars]
        for p in ("order", "dtype", "casting", "out"):
            nm = f"_einsum: {p} -> library"
            if not base:
                ctx.put(None if any(k == p for k, _ in e.kws) else False, R, nm, e.loc, f"{p} is dropped")
                continue
            try:
                x = dict_look(base[0], p)
                ctx.put(True if x.op in ("entry", "get", "idx") and x.a[0] is kw else False if x is ABSENT else None, R, nm, e.loc, show(x, 3))
            except Undecided as u:
                ctx.unk(R, nm, e.loc, str(u))
        if base:
            try:
                x = dict_look(base[0], "backend")
                ctx.put(True if x is ABSENT else False if x.op == "entry" else None, R, "_einsum: backend is not an option of the library", e.loc, show(x, 3))
            except Undecided as u:
                ctx.unk(R, "_einsum: backend is not an option of the library", e.loc, str(u))
    # only defaults are filtered
    fq = "contract._filter_einsum_defaults"
    if fq not in ctx.p.fns:
        return
    r = ctx.run(fq)
    kw = list(r.params.values())[0]
    t = r.eng.freeze(r.ret, r.state)
    f = ctx.p.fn(fq)
    docs = {"order": ("C", "F", "A"), "casting": ("no", "equiv", "same_kind", "unsafe"), "dtype": ("float32",), "out": ("array",), "other": ("value",)}
    for p, values in docs.items():
        for value in values:
            def mine(u):
                return u.op in ("get", "idx") and u.a[0] is kw and is_const(u.a[1], p)

            def leaf(c, en):
                if c.op == "cmp" and c.a[0] in ("eq", "is") and c.a[2].op == "const" and c.a[1].op in ("get", "idx") and c.a[1].a[0] is kw:
                    return value == cval(c.a[2]) if mine(c.a[1]) else None
                if c.op == "cmp" and c.a[0] == "in" and mine(c.a[1]) and c.a[2].op in ("tup", "lst", "set", "const"):
                    xs = cval(c.a[2]) if c.a[2].op == "const" else [cval(x) for x in c.a[2].a if x.op == "const"]
                    return value in xs
                if c.op == "cmp" and c.a[0] == "in" and c.a[2] is kw and c.a[1].op == "const":
                    return cval(c.a[1]) == p
                return True if mine(c) else None
            nm = p if len(values) == 1 else f"{p}={value!r}"
            try:
                x = dict_look(t, p, leaf)
            except Undecided as u:
                ctx.unk(R, f"filter: {nm}", f.loc, str(u))
                continue
            while x.op == "phi":
                try:
                    x = x.a[1] if truth_of(x.a[0], None, leaf) else x.a[2]
                except Undecided:
                    break
            ctx.put(True if mine(x) or x.op == "entry" and x.a[0] is kw and x.a[1] == p else False if x is ABSENT or x.op == "const" else None, R,
                    f"filter: {nm} is kept", f.loc, "it is dropped" if x is ABSENT else show(x, 4))


# ---------------------------------------------------------------- searches
def attr_init(ctx, cls, name):
    """what a constructor stores under a name: (run, event) of the last store"""
    q = f"{cls}.__init__"
    r = ctx.run(q, public=True, opaque=CALLS - {q})
    evs = [e for e in r.evs("setattr") if e.name == name and e.fq == q]
    return r, (evs[-1] if evs else None)


def stored(ctx, R, cls, name, accept=None):
    r, e = attr_init(ctx, cls, name)
    p = r.params.get(name)
    nm = f"{short(cls)}: {name} is kept"
    if e is None or p is None:
        ctx.put(None, R, nm, ctx.p.fn(cls + ".__init__").loc, "not stored under its name")
        return
    v = e.value
    if v is p or accept is not None and accept(v, p):
        ctx.ok(R, nm, e.loc)
    else:
        ctx.put(False if v.op in ("const", "param") or not contains(v, lambda u: u is p) else None, R, nm, e.loc, f"{show(v, 4)} is kept instead")


def costfn(v, p):
    return v.op == "get" and v.a[1] is p and v.a[2] is p or v is p or v.op == "phi" and all(x is p or x.op == "idx" and x.a[1] is p for x in v.a[1:])


def r_branch(ctx):
    R = "branching search"
    fq = "paths.branch"
    r = ctx.run(fq, public=True, opaque=CALLS - {fq})
    for e in events(ctx, r, "paths.BranchBound"):
        for n in ("nbranch", "cutoff_flops_factor", "minimize", "cost_fn"):
            same(ctx, R, fq, r, e, "paths.BranchBound", n)
    for n in ("nbranch", "cutoff_flops_factor", "minimize"):
        stored(ctx, R, "paths.BranchBound", n)
    stored(ctx, R, "paths.BranchBound", "cost_fn", costfn)
    better(ctx, R, "paths.BranchBound")
    # use of the attributes
    from .common import recursive_nested
    fqr = recursive_nested(ctx, "paths.BranchBound.__call__")
    r = ctx.run(fqr, opaque=frozenset({"paths.calc_k12_flops", "helpers.compute_size_by_dict", "paths._compute_oversize_flops", "helpers.flop_count"}))
    selfs = {u for e in r.events for v in e.d.values() if hasattr(v, "op") for u in subterms(v) if u.op == "attr" and u.a[1] == "nbranch"}
    cutoff(ctx, R, r)
    rec = [e for e in r.events if e.kind == "call" and e.callee is mk("func", fqr)]
    for e in rec:
        if not e.loops:
            ctx.unk(R, "number of branches", e.loc, "no loop")
            continue
        lid = e.loops[-1][0]
        lp = r.eng.loops[lid]
        # facts that mention nbranch
        fs = [c for c in e.facts if contains(c, lambda u: u.op == "attr" and u.a[1] == "nbranch")]
        nb = next((u for c in fs for u in subterms(c) if u.op == "attr" and u.a[1] == "nbranch"), None)
        if nb is None:
            it = e.loops[-1][1]
            nb2 = next((u for u in subterms(it) if u.op == "attr" and u.a[1] == "nbranch"), None)
            ctx.put(None if nb2 is not None else False if not selfs else None, R, "number of branches", e.loc, "the number of branches is not limited by nbranch")
            continue
        cnt = [m for m in lp.init if m.op == "mu" and any(contains(c, lambda u: u is m) for c in fs) and is_const(lp.init[m], 0)]
        if len(cnt) != 1:
            ctx.unk(R, "number of branches", e.loc, f"{len(cnt)} counters")
            continue
        bi = cnt[0]
        try:
            step = numeval(lp.step[bi], lambda u: 10 if u is bi else None)
            ctx.put(step == 11, R, "branches are counted", e.loc, show(lp.step[bi], 4))
        except Undecided as u:
            ctx.unk(R, "branches are counted", e.loc, str(u))
        try:
            for n, i, w in ((None, 0, True), (None, 7, True), (1, 0, True), (1, 1, False), (2, 1, True), (2, 2, False), (3, 4, False)):
                def leaf(c, en):
                    if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[1] is nb and c.a[2] is NONE:
                        return n is None
                    if c is nb:
                        return n is not None
                    if c.op == "cmp" and contains(c, lambda u: u is nb) and n is None:
                        return None
                    return numleaf(lambda u: (n if u is nb else i if u is bi else None))(c, en) if c.op == "cmp" else (True if c.op in ("mu", "new", "out") else None)
                got = all(truth_of(c, None, leaf) for c in fs)
                ctx.put(got == w, R, f"number of branches: {i} taken of {n if n is not None else 'all'}", e.loc, f"the next branch is {'taken' if got else 'not taken'}")
        except Undecided as u:
            ctx.unk(R, "number of branches", e.loc, str(u))


def atoms(c):
    """the atoms of a condition"""
    if c.op in ("or", "and", "not"):
        return [a for x in c.a for a in atoms(x)]
    if c.op == "phi":
        return [a for x in c.a for a in atoms(x)]
    return [c]


def cutoff(ctx, R, r):
    """a pair is given up if the operations so far exceed cutoff_flops_factor times those of the best at this point"""
    cf = [e for e in r.events if e.kind == "call" and (e.d.get("name") == "cost_fn" or e.callee.op == "attr" and e.callee.a[1] == "cost_fn")]
    is_c = lambda u: u.op == "attr" and u.a[1] == "cutoff_flops_factor"
    if not cf:
        ctx.unk(R, "cutoff_flops_factor", "", "no call of cost_fn")
    for e in cf[:1]:
        fs = [c for c in e.facts if contains(c, is_c)]
        if not fs:
            far = any(contains(c, is_c) for x in r.events for c in x.facts)
            ctx.put(None if far else False, R, "cutoff_flops_factor", e.loc, "no pair is given up because of cutoff_flops_factor")
            continue
        fl = r.params.get("flops")
        for nf, best, f, want in ((30, 10, 2, False), (15, 10, 2, True), (5, 10, 2, True), (30, 10, 4, True), (300, 10, 4, False)):
            def val(u):
                if is_c(u):
                    return f
                if u.op in ("idx", "get") and len(u.a) > 1 and is_call(u.a[1], "builtins.len"):
                    return best
                if u.op == "bin" and u.a[0] == "+" and any(x is fl for x in u.a[1:]):
                    return nf
                if u.op == "add" and any(x is fl for x in u.a):
                    return nf
                return None

            def leaf(c, en):
                if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "better" or mcall(c, "better") is not None:
                    return True
                return None
            nm = f"cutoff_flops_factor={f}, best so far {best}, now {nf}"
            try:
                got = all(truth_of(c, None, numleaf(val, leaf)) for c in fs)
                ctx.put(got is want, R, nm, e.loc, "the pair is " + ("considered" if got else "given up"))
            except Undecided as u:
                ctx.unk(R, nm, e.loc, str(u))


def better(ctx, R, cls):
    r, e = attr_init(ctx, cls, "better")
    p = r.params.get("minimize")
    nm = f"{short(cls)}: minimize decides what is better"
    if e is None:
        ctx.unk(R, nm, "", "")
        return
    v = e.value
    ok = contains(v, lambda u: u is p)
    ctx.put(True if v.op in ("idx", "get") and v.a[1] is p or is_call(v, "paths.get_better_fn") and v.a[1][0] is p else False if not ok else None, R, nm, e.loc, show(v, 4))


def r_greedy(ctx):
    R = "greedy search"
    fq = "paths.greedy"
    r = ctx.run(fq, public=True, opaque=CALLS - {fq})
    for e in events(ctx, r, "paths.ssa_greedy_optimize"):
        same(ctx, R, fq, r, e, "paths.ssa_greedy_optimize", "cost_fn")
        same(ctx, R, fq, r, e, "paths.ssa_greedy_optimize", "choose_fn")
    for e in events(ctx, r, "paths.branch"):
        same(ctx, R, fq, r, e, "paths.branch", "cost_fn")
        try:
            v = carried(ctx, e, "paths.branch", "nbranch")
            ctx.put(True if v is not None and is_const(v, 1) else False if v is None or v.op == "const" else None, R, "greedy: one branch under a memory limit", e.loc, show(v) if v is not None else "all branches")
        except Undecided as u:
            ctx.unk(R, "greedy: one branch under a memory limit", e.loc, str(u))
    fq = "paths.ssa_greedy_optimize"
    r = ctx.run(fq, public=True, opaque=CALLS - {fq})
    P = r.params
    cf, ch = P["cost_fn"], P["choose_fn"]
    n = 0
    for e in events(ctx, r, "paths._push_candidate"):
        n += 1
        v = call_arg(e, ctx.p.fn("paths._push_candidate"), "cost_fn")
        nm = "ssa_greedy_optimize: cost_fn -> candidates"
        ctx.put(True if v is not None and costfn(v, cf) else False if v is None or not contains(v, lambda u: u is cf) else None, R, nm, e.loc, show(v, 4) if v is not None else "not passed")
    if not n:
        ctx.unk(R, "ssa_greedy_optimize: cost_fn -> candidates", ctx.p.fn(fq).loc, "no candidates")
    # the chooser
    calls = [e for e in r.events if e.kind == "call" and (contains(e.callee, lambda u: u is ch) or e.d.get("name") == "paths._simple_chooser" or e.callee is mk("func", "paths._simple_chooser"))]
    direct = [e for e in calls if contains(e.callee, lambda u: u is ch)]
    if not direct:
        ctx.put(False if not any(contains(v, lambda u: u is ch) for e in r.events for v in e.d.values() if hasattr(v, "op")) else None, R, "ssa_greedy_optimize: choose_fn chooses", ctx.p.fn(fq).loc, "choose_fn is never called")
    for e in direct:
        for v, w in ((None, "default"), ("given", "given")):
            def leaf(c, en):
                if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[1] is ch and c.a[2] is NONE:
                    return v is None
                if c is ch:
                    return v is not None
                return None
            try:
                if not all(truth_of(c, None, leaf) for c in e.facts if contains(c, lambda u: u is ch)):
                    continue
                x = pick(e.callee, leaf)
                ctx.put((x is ch) == (w == "given"), R, f"ssa_greedy_optimize: choose_fn {w}", e.loc, f"{show(x, 3)} chooses")
            except Undecided as u:
                ctx.unk(R, f"ssa_greedy_optimize: choose_fn {w}", e.loc, str(u))
    # candidates pass it on and use it
    fq = "paths._push_candidate"
    if fq in ctx.p.fns:
        r = ctx.run(fq, opaque=CALLS - {fq})
        evs = events(ctx, r, "paths._get_candidate")
        for e in evs:
            same(ctx, R, fq, r, e, "paths._get_candidate", "cost_fn")
    fq = "paths._get_candidate"
    if fq in ctx.p.fns:
        r = ctx.run(fq, opaque=CALLS - {fq})
        cf = r.params.get("cost_fn")
        evs = [e for e in r.events if e.kind == "call" and e.callee is cf]
        ctx.put(True if evs else False if cf is not None and not any(contains(v, lambda u: u is cf) for e in r.events for v in e.d.values() if hasattr(v, "op")) else None, R, "_get_candidate: cost_fn gives the cost",
                ctx.p.fn(fq).loc, "cost_fn is not called")


def kept(a, o):
    """False if some choice of the options shows that another value is passed on than the one given for `o`"""
    pts = [dict(temperature=t, nbranch=n, rel_temperature=r) for t in (0.0, 0.5, 3.0) for n in (2, 5, 8) for r in (False, True)]
    for pt in pts:
        def val(u):
            return pt.get(u.a[1]) if u.op == "attr" else None
        lf = numleaf(val, lambda c, en: bool(pt[c.a[1]]) if c.op == "attr" and c.a[1] in pt else None)
        try:
            if isinstance(pt[o], bool):
                got = truth_of(a, None, lf)
            else:
                got = numeval(pick(a, lf), val)
            if got != pt[o]:
                return False
        except Undecided:
            continue
    return True


def r_random(ctx):
    R = "random search"
    fq = "path_random.random_greedy"
    r = ctx.run(fq, public=True, opaque=CALLS - {fq})
    evs = events(ctx, r, "path_random.RandomGreedy")
    for e in evs:
        rest(ctx, R, fq, r, e, "path_random.RandomGreedy", src="optimizer_kwargs", probe=("max_repeats", "nbranch", "temperature"))
    if not evs:
        ctx.unk(R, "random_greedy: options -> RandomGreedy", ctx.p.fn(fq).loc)
    C = "path_random.RandomGreedy"
    for n in ("cost_fn", "temperature", "rel_temperature", "nbranch"):
        stored(ctx, R, C, n, costfn if n == "cost_fn" else None)
    r = ctx.run(C + ".__init__", opaque=CALLS - {C + ".__init__"})
    evs = [e for e in r.events if e.kind == "supercall" and e.name == "__init__" or e.kind == "call" and is_call(e.term, "path_random.RandomOptimizer.__init__")]
    for e in evs:
        rest(ctx, R, C + ".__init__", r, e, "path_random.RandomOptimizer.__init__", probe=("max_repeats", "max_time", "minimize", "parallel", "pre_dispatch"))
    if not evs:
        ctx.unk(R, "RandomGreedy: other options -> RandomOptimizer", ctx.p.fn(C + ".__init__").loc, "super().__init__ is not called")
    O = "path_random.RandomOptimizer"
    for n in ("max_repeats", "max_time", "minimize", "parallel", "pre_dispatch"):
        stored(ctx, R, O, n)
    better(ctx, R, O)
    r_trials(ctx, R, O)
    # the chooser's options
    q = C + ".choose_fn"
    f = ctx.p.fn(q)
    r = ctx.run(q, public=True, opaque=CALLS | {"path_random.thermal_chooser"})
    t = r.eng.freeze(r.ret, r.state)
    s = list(r.params.values())[0] if r.params else None
    tc = ctx.p.fn("path_random.thermal_chooser")

    def nleaf(n):
        def val(u):
            return n if u.op == "attr" and u.a[1] == "nbranch" else None
        return numleaf(val)
    for n in (1, 2, 8):
        try:
            v = pick(t, nleaf(n))
        except Undecided as u:
            ctx.unk(R, f"chooser for nbranch={n}", f.loc, str(u))
            continue
        if n == 1:
            ctx.put(True if v is NONE or is_call(v, "functools.partial") else None, R, "chooser for nbranch=1", f.loc, show(v, 4))
            continue
        if not is_call(v, "functools.partial"):
            ctx.put(False if v is NONE else None, R, f"chooser for nbranch={n}", f.loc, show(v, 4))
            continue
        ctx.put(True if v.a[1] and v.a[1][0] is mk("func", "path_random.thermal_chooser") else None, R, f"chooser for nbranch={n}", f.loc, show(v, 4))
        kws = dict(v.a[2])
        for o in ("temperature", "nbranch", "rel_temperature"):
            a = kws.get(o)
            nm = f"RandomGreedy: {o} -> thermal_chooser"
            if a is None:
                ctx.bad(R, nm, f.loc, f"{o} is not passed on: its default is used")
            else:
                ctx.put(True if a.op == "attr" and a.a[1] == o else False if a.op == "const" or a.op == "attr" or not kept(a, o) else None, R, nm, f.loc, show(a, 3))
    # setup: arguments of a trial
    q = C + ".setup"
    f = ctx.p.fn(q)
    r = ctx.run(q, public=True, opaque=CALLS | {C + ".choose_fn", "path_random._trial_greedy_ssa_path_and_cost"})
    t = r.eng.freeze(r.ret, r.state)
    if t.op == "tup" and len(t.a) == 2 and t.a[0].op == "func" and t.a[0].a[0] in ctx.p.fns and t.a[1].op in ("tup", "lst"):
        tf = ctx.p.fns[t.a[0].a[0]]
        ps = tf.params()[1:]
        if len(ps) == len(t.a[1].a):
            for p, v in zip(ps, t.a[1].a):
                nm = f"setup: {p} of a trial"
                if p in r.params:
                    ctx.put(True if v is r.params[p] else False if v.op in ("param", "attr", "const") else None, R, nm, f.loc, show(v, 3))
                elif p == "cost_fn":
                    ctx.put(True if v.op == "attr" and v.a[1] == p else False if v.op in ("param", "const") or v.op == "attr" else None, R, nm, f.loc, show(v, 3))
                elif p == "choose_fn":
                    ctx.put(True if v.op == "attr" and v.a[1] == p or contains(v, lambda u: u.op == "func" and u.a[0].endswith(("thermal_chooser", "choose_fn"))) else False if v.op in ("param", "const", "attr") else None, R, nm, f.loc, show(v, 3))
        else:
            ctx.bad(R, "setup: arguments of a trial", f.loc, f"{len(t.a[1].a)} arguments for {len(ps)} parameters")
        # the trial
        tq = tf.fq
        rr = ctx.run(tq, opaque=CALLS)
        n = rr.params.get(tf.params()[0])
        for e in events(ctx, rr, "paths.ssa_greedy_optimize"):
            same(ctx, R, tq, rr, e, "paths.ssa_greedy_optimize", "cost_fn")
            try:
                v = carried(ctx, e, "paths.ssa_greedy_optimize", "choose_fn")
                if v is None:
                    ctx.bad(R, "trial: choose_fn -> ssa_greedy_optimize", e.loc, "the chooser is not used")
                else:
                    for k in (1, 2, 9):
                        x = pick(v, numleaf(lambda u: k if u is n else None))
                        ctx.put(True if x is rr.params.get("choose_fn") else False if x is NONE else None, R, f"trial {k}: choose_fn -> ssa_greedy_optimize", e.loc, show(x, 3))
            except Undecided as u:
                ctx.unk(R, "trial: choose_fn -> ssa_greedy_optimize", e.loc, str(u))
    else:
        ctx.unk(R, "setup: arguments of a trial", f.loc, show(t, 4))


def r_trials(ctx, R, O):
    """max_repeats, max_time, parallel and pre_dispatch do what they say"""
    q = O + ".__call__"
    f = ctx.p.fn(q)
    r = ctx.run(q, public=True, opaque=frozenset({O + ".setup", O + "._gen_results_parallel", O + "._check_args_against_first_call", O + ".path", O + "._cancel_futures"}))
    rng = {u for lp in r.eng.loops.values() if isinstance(lp.iter, T) for u in subterms(lp.iter) if is_call(u, "builtins.range")}
    rng |= {e.term for e in r.events if e.kind == "call" and is_call(e.term, "builtins.range") and e.fq == q}
    for t in rng:
        for n, done in ((5, 0), (7, 3)):
            def val(u):
                if u.op == "attr" and u.a[1] == "max_repeats":
                    return n
                if u.op == "attr" and u.a[1] == "_repeats_start":
                    return 0
                if is_call(u, "builtins.len"):
                    return done
                return None
            try:
                a = [numeval(x, val) for x in t.a[1]]
                k = len(range(*map(int, a)))
                ctx.put(k == n, R, f"a call with max_repeats={n} after {done} trials", f.loc, f"runs {k} trials")
            except Undecided as u:
                ctx.unk(R, f"a call with max_repeats={n} after {done} trials", f.loc, str(u))
    if not rng:
        ctx.unk(R, "number of trials", f.loc, "no range of repeats")
    # max_time: ends the loop over the trials, and only if given
    exits = [x for lp in r.eng.loops.values() for x in lp.exits]
    mt = [x for x in exits if contains(x, lambda u: u.op == "attr" and u.a[1] == "max_time")]

    def none(c):
        return c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[1].op == "attr" and c.a[1].a[1] == "max_time" and c.a[2] is NONE
    for x in mt:
        live = contains(drop_none(x, none), lambda u: u.op == "attr" and u.a[1] == "max_time")
        ctx.put(True if live else False, R, "the search stops after max_time", f.loc, "the time allowed is not compared with")
        try:
            ctx.put(not truth_of(x, None, lambda c, en: True if none(c) else None), R, "max_time=None sets no limit", f.loc, "the search stops early")
        except Undecided as u:
            ctx.unk(R, "max_time=None sets no limit", f.loc, str(u))
        # start at 1000, allowed 5
        start = {e.term for e in r.events if e.kind == "clock" and not e.loops}
        now = {e.term for e in r.events if e.kind == "clock" and e.loops}
        for sp, want in ((1, False), (4, False), (6, True), (4000, True)):
            try:
                got = bool(pointeval(x, lambda u: 5 if u.op == "attr" and u.a[1] == "max_time" else 1000 if u in start else 1000 + sp if u in now else None))
                ctx.put(got == want, R, f"max_time=5 after {sp} seconds", f.loc, f"the search {'stops' if got else 'goes on'}")
            except (Undecided, Fails) as u:
                ctx.unk(R, f"max_time=5 after {sp} seconds", f.loc, str(u))
    if not mt:
        used = any(contains(x, lambda u: u.op == "attr" and u.a[1] == "max_time") for lp in r.eng.loops.values() if isinstance(lp.iter, T) for x in [lp.iter]) or any(e.kind == "call" and any(contains(a, lambda u: u.op == "attr" and u.a[1] == "max_time") for a in e.args) for e in r.events)
        ctx.put(None if used else False, R, "the search stops after max_time", f.loc, "no exit from the loop over the trials depends on max_time")
    # parallel
    q = O + ".parallel.setter"
    if q not in ctx.p.fns:
        ctx.unk(R, "parallel", "", "no setter")
        return
    f = ctx.p.fn(q)
    r = ctx.run(q, public=True)
    par = list(r.params.values())[-1] if "parallel" not in r.params else r.params["parallel"]
    for nm, kind in (("False", False), ("True", True), ("a number of workers", 3), ("an executor", "pool")):
        def leaf(c, en):
            if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[1] is par and c.a[2].op == "const":
                return kind is cval(c.a[2])
            if c.op == "isinstance" and c.a[0] is par:
                cl = {u.a[0].rsplit(".", 1)[-1] for u in subterms(c.a[1]) if u.op in ("class", "func", "ext")}
                if cl & {"int", "Number", "Integral"}:
                    return kind != "pool"
                if cl == {"bool"}:
                    return isinstance(kind, bool)
                if cl <= {"Decimal", "float"}:
                    return False
                return None
            if c is par:
                return bool(kind)
            if is_call(c, "builtins.getattr"):
                return False
            return None
        got = "?"
        try:
            for e in r.evs("setattr"):
                if e.name != "_executor":
                    continue
                if all(truth_of(k, None, leaf) for k in e.facts):
                    got = pick(e.value, leaf)
        except Undecided as u:
            ctx.unk(R, f"parallel={nm}", f.loc, str(u))
            continue
        if got == "?":
            ctx.unk(R, f"parallel={nm}", f.loc, "no executor is set")
            continue
        pool = got.op == "call" and got.a[0].op == "ext" and got.a[0].a[0].endswith("Executor")
        arg = (list(got.a[1]) + [v for _, v in got.a[2]])[:1] if pool else []
        if kind is False:
            ok = True if got is NONE else False if pool or got is par else None
        elif kind is True:
            ok = True if pool and (not arg or arg[0] is NONE) else False if got is NONE or got is par else None
        elif kind == 3:
            ok = True if pool and arg and strip(arg[0], "builtins.int") is par else False if got is NONE or got is par or pool and not arg else None
        else:
            ok = True if got is par else False if got is NONE or pool else None
        ctx.put(ok, R, f"parallel={nm}", f.loc, f"the trials are run by {show(got, 4)}")
    # pre_dispatch: bound on the jobs in flight
    q = O + "._gen_results_parallel"
    if q not in ctx.p.fns:
        ctx.unk(R, "pre_dispatch", "", "no parallel trials")
        return
    f = ctx.p.fn(q)
    r = ctx.run(q)
    sub = [e for e in r.events if e.kind == "call" and e.d.get("name") == "submit" and e.loops]
    ys = [e for e in r.events if e.kind == "yield" and e.loops]
    if not sub or not ys:
        ctx.unk(R, "pre_dispatch", f.loc, "no loop submitting trials")
        return
    lid = sub[0].loops[-1][0]
    inloop = [e for e in ys if any(x[0] == lid for x in e.loops)]

    def held(k, n):
        def val(u):
            if u.op == "attr" and u.a[1] == "pre_dispatch":
                return n
            if is_call(u, "builtins.len"):
                return k
            return None
        return numleaf(val)
    try:
        for n, k, want in ((6, 0, False), (6, 6, True), (3, 3, True), (50, 10, False), (400, 300, False)):
            got = any(all(truth_of(c, None, held(k, n)) for c in e.facts) for e in inloop)
            ctx.put(got is want, R, f"pre_dispatch={n}, {k} jobs in flight", f.loc, "a result is awaited before the next is submitted" if got else "no result is awaited: the jobs in flight are not bounded")
        if len(inloop) == len(ys):
            ctx.unk(R, "pre_dispatch", f.loc, "one loop only")
    except Undecided as u:
        ctx.unk(R, "pre_dispatch", f.loc, str(u))


def drop_none(t, none):
    from sa.terms import subst
    return subst(t, {c: FALSE for c in subterms(t) if none(c)})


def r_chooser(ctx):
    R = "thermal chooser"
    fq = "path_random.thermal_chooser"
    f = ctx.p.fn(fq)
    r = ctx.run(fq, public=True)
    P = r.params
    q, rem, nb, temp, rel = (P.get(x) for x in ("queue", "remaining", "nbranch", "temperature", "rel_temperature"))
    ap = [e for e in r.events if e.kind == "mutate" and e.op == "append" and e.loops]
    pops = [e for e in r.events if e.kind == "call" and is_call(e.term, "heapq.heappop")]
    if len(ap) != 1 or len(pops) != 1 or not pops[0].loops:
        raise Undecided("collecting candidates")
    a, p = ap[0], pops[0]
    lid = a.loops[-1][0]
    lp = r.eng.loops[lid]
    inner = [c for c in a.facts]

    def entry(i):
        return mk("idx", p.term, const(i))
    # which candidates are taken
    size = [m for m in lp.init if is_const(lp.init[m], 0)]
    lst = a.obj

    def count(u, i):
        """number of candidates taken so far"""
        return i if u in size or is_call(u, "builtins.len") and (u.a[1][0] is lst or u.a[1][0].op == "mu") else None
    try:
        for n, i, w in ((1, 0, True), (3, 2, True), (3, 3, False), (8, 9, False)):
            def leaf(c, en):
                if c.op == "mu" or c is q or c.op in ("esc", "new"):
                    return True     # candidates are left
                if c.op == "cmp" and c.a[0] == "in":
                    return True
                return numleaf(lambda u: n if u is nb else count(u, i))(c, en)
            got = all(truth_of(c, None, leaf) for c in inner)
            ctx.put(got == w, R, f"candidate {i} of at most {n}", a.loc, f"is {'taken' if got else 'not taken'}")
    except Undecided as u:
        ctx.unk(R, "number of candidates", a.loc, str(u))
    for m in size:
        used = any(contains(c, lambda u: u is m) for c in inner)
        if used:
            for ok in (True, False):
                def leaf2(c, en):
                    if c.op == "cmp" and c.a[0] == "in":
                        return ok
                    return None
                try:
                    v = numeval(pick(lp.step[m], leaf2), lambda u: 10 if u is m else None)
                    ctx.put(v == (11 if ok else 10), R, f"{'valid' if ok else 'obsolete'} candidates are {'' if ok else 'not '}counted", a.loc, show(lp.step[m], 4))
                except Undecided as u:
                    ctx.unk(R, "candidates are counted", a.loc, str(u))
    try:
        for bits, w in (((True, True), True), ((False, True), False), ((True, False), False), ((False, False), False)):
            def leaf3(c, en):
                if c.op == "cmp" and c.a[0] == "in" and c.a[2] is rem:
                    for i in (1, 2):
                        if c.a[1] is entry(i):
                            return bits[i - 1]
                    return None
                if c.op == "mu" or c.op in ("esc", "new"):
                    return True
                return numleaf(lambda u: 8 if u is nb else count(u, 0))(c, en)
            got = all(truth_of(c, None, leaf3) for c in inner)
            ctx.put(got == w, R, f"terms {'left' if bits[0] else 'gone'} and {'left' if bits[1] else 'gone'}", a.loc, "an obsolete candidate is taken" if got else "a candidate is dropped")
    except Undecided as u:
        ctx.unk(R, "obsolete candidates", a.loc, str(u))
    x = a.args[0]
    whole = x is p.term or x.op == "tup" and len(x.a) == 4 and all(x.a[i] is entry(i) for i in range(4))
    ctx.put(True if whole else False if x.op == "tup" and len(x.a) == 4 and all(u.op == "idx" for u in x.a) else None, R, "candidates are kept whole", a.loc, show(x, 4))
    # the choice
    ch = [e for e in r.events if e.kind == "call" and is_call(e.term, "random.choices")]
    pu = [e for e in r.events if e.kind == "call" and is_call(e.term, "heapq.heappush")]
    if not ch:
        raise Undecided("no random choice")
    c = ch[0]
    w = dict(c.kws).get("weights", c.args[1] if len(c.args) > 1 else None)
    if w is None:
        ctx.bad(R, "candidates are weighted", c.loc, "all candidates are equally likely: temperature has no effect")
    else:
        weights(ctx, R, c, w, temp, rel)
        # a candidate is (cost, k1, k2, k12), its cost (value, ids...) breaking ties by the ids
        wrong = [u for u in subterms(w) if u.op == "idx" and u.a[1].op == "const" and not is_const(u.a[1], 0) and u.a[0].op == "idx" and is_const(u.a[0].a[1], 0) and u.a[0].a[0].op == "elem"]
        ctx.put(not wrong, R, "weights are made of the costs", c.loc, "an id is taken for the cost: " + (show(wrong[0], 3) if wrong else ""))
    # put back
    if not pu:
        ctx.bad(R, "candidates not chosen stay available", f.loc, "they are not put back")
    for e in pu:
        src = e.args[1]
        ok = src.op == "elem" and src.a[0].op == "popped"
        ctx.put(True if ok else None, R, "candidates not chosen stay available", e.loc, show(src, 3))
        extra = [k for k in e.facts if k not in c.facts and not contains(k, lambda u: u.op == "out")]
        ctx.put(True if not extra else None, R, "all of them", e.loc, "")
    # returns
    t = r.eng.freeze(r.ret, r.state)
    outs = [m for m in subterms(t) if m.op == "out"]

    def nn(k):
        def val(u):
            if u.op == "out" and len(u.a) == 3 and u.a[0] == lid:
                if u.a[2].op == "phi" or contains(u.a[2], lambda y: y in size):
                    return k if any(contains(u.a[2], lambda y: y is m) for m in size) else None
            if is_call(u, "builtins.len"):
                return k
            return None

        def more(cc, en):
            if cc.op == "out":
                return k > 0
            return None
        return numleaf(val, more)
    for k in (0, 1, 3):
        try:
            v = pick(t, nn(k))
            if k == 0:
                ctx.put(v is NONE, R, "no candidate left", f.loc, show(v, 3))
            elif k == 1:
                ctx.put(False if v is NONE else True if v.op == "idx" and is_const(v.a[1]) and cval(v.a[1]) in (0, -1) or contains(v, lambda u: u is c.term) or v.op == "tup" else None, R, "one candidate left", f.loc, show(v, 3))
            else:
                ctx.put(True if contains(v, lambda u: is_call(u, "random.choices")) else False if v is NONE or v.op == "idx" and v.a[1].op == "const" else None, R, "the chosen candidate is returned", f.loc, show(v, 3))
        except Undecided as u:
            ctx.unk(R, f"{k} candidates", f.loc, str(u))


def weights(ctx, R, e, w, temp, rel):
    """exp(-(c - cmin) / T), T scaled by max(1, |cmin|) if relative; T = 0: the cheapest only"""
    import math
    for t0, rl, cmin, c in ((1.0, False, 2.0, 5.0), (1.0, True, 2.0, 5.0), (0.5, True, -4.0, -1.0), (2.0, True, 0.25, 3.0), (0.0, True, 2.0, 2.0), (0.0, False, 2.0, 5.0), (3.0, False, 7.0, 7.0), (0.25, False, 1.0, 1.5), (100.0, True, 3.0, 9.0), (0.01, False, 1.0, 1.001)):
        T = t0 * max(1, abs(cmin)) if rl else t0
        want = (1 if c == cmin else 0) if T == 0 else math.exp(-(c - cmin) / T)

        def scalar(u):
            if u is temp:
                return t0
            if u.op == "idx" and is_const(u.a[1], 0) and u.a[0].op == "comp":
                return cmin
            if is_call(u, "builtins.min") and u.a[1]:
                return cmin
            if u.op == "idx" and is_const(u.a[1], 0) and u.a[0].op == "idx" and is_const(u.a[0].a[1], 0) and u.a[0].a[0].op == "elem":
                return c
            if u.op == "idx" and is_const(u.a[1], 0) and u.a[0].op == "idx" and is_const(u.a[0].a[1], 0):
                return cmin
            if u.op == "elem":
                return c
            return None

        def ev(u):
            s = scalar(u)
            if s is not None:
                return s
            if u.op == "phi":
                return ev(u.a[1] if truth_of(u.a[0], None, leaf) else u.a[2])
            if is_call(u, "math.exp"):
                return math.exp(ev(u.a[1][0]))
            if is_call(u, "builtins.max", "builtins.min") and len(u.a[1]) > 1:
                return (max if is_call(u, "builtins.max") else min)(ev(y) for y in u.a[1])
            if is_call(u, "builtins.abs"):
                return abs(ev(u.a[1][0]))
            if u.op == "neg":
                return -ev(u.a[0])
            if u.op == "bin" and u.a[0] in ("+", "-", "*", "/"):
                x, y = ev(u.a[1]), ev(u.a[2])
                return x + y if u.a[0] == "+" else x - y if u.a[0] == "-" else x * y if u.a[0] == "*" else x / y
            if u.op == "const":
                return cval(u)
            return numeval(u, lambda z: ev(z) if z is not u else None)

        def leaf(k, en):
            if k is rel:
                return rl
            if k.op == "cmp" and k.a[0] in ("eq", "lt", "le", "gt", "ge", "ne"):
                x, y = ev(k.a[1]), ev(k.a[2])
                return {"eq": x == y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "ne": x != y}[k.a[0]]
            if k is temp:
                return t0 != 0
            if k.op == "phi" or k.op == "bin":
                return bool(ev(k))
            return None
        nm = f"weight at temperature {t0}{' relative' if rl else ''}, costs {cmin} and {c}"
        try:
            x = pick(w, leaf)
            if x.op != "comp":
                raise Undecided("weights " + show(x, 4))
            got = ev(x.a[1])
            ctx.put(abs(got - want) < 1e-9, R, nm, e.loc, f"is {got:.6g} instead of {want:.6g}")
        except Undecided as u:
            ctx.unk(R, nm, e.loc, str(u))
        except (ZeroDivisionError, OverflowError) as u:
            ctx.bad(R, nm, e.loc, f"{type(u).__name__}")


def r_dp(ctx):
    R = "dynamic programming"
    fq = "paths.dynamic_programming"
    r = ctx.run(fq, public=True, opaque=CALLS - {fq})
    for e in events(ctx, r, "paths.DynamicProgramming"):
        rest(ctx, R, fq, r, e, "paths.DynamicProgramming", probe=("minimize", "cost_cap", "search_outer"))
    for n in ("minimize", "cost_cap", "search_outer"):
        stored(ctx, R, "paths.DynamicProgramming", n)
    # use of the options
    q = "paths.DynamicProgramming.__call__"
    f = ctx.p.fn(q)
    r = ctx.run(q, public=True, opaque=frozenset({"paths._parse_minimize", "paths._dp_parse_out_single_term_ops", "paths._tree_to_sequence", "paths._find_disconnected_subgraphs", "paths.simple_tree_tuple",
                                                  "paths._bitmap_select", "helpers.compute_size_by_dict"}))

    def at(name):
        return lambda u: u.op == "attr" and u.a[1] == name
    caps = {lp.init[m] for lp in r.eng.loops.values() for m in lp.init if isinstance(lp.init[m], T) and contains(lp.init[m], at("cost_cap"))}
    for t in caps:
        for v in (True, False, 7):
            def leaf(c, en):
                if c.op == "cmp" and c.a[0] in ("is", "eq") and at("cost_cap")(c.a[1]) and c.a[2].op == "const":
                    return v is cval(c.a[2]) if c.a[0] == "is" else v == cval(c.a[2])
                if c.op == "isinstance" and at("cost_cap")(c.a[0]):
                    cl = {u.a[0].rsplit(".", 1)[-1] for u in subterms(c.a[1]) if u.op in ("class", "func", "ext")}
                    return isinstance(v, bool) if cl == {"bool"} else True if cl & {"int"} else None
                if at("cost_cap")(c):
                    return bool(v)
                return None
            nm = f"cost_cap={v}"
            try:
                x = pick(t, leaf)
                own = at("cost_cap")(x)
                inf = x.op == "const" and cval(x) == float("inf") or is_call(x, "builtins.float") and is_const(x.a[1][0], "inf") or x.op == "ext" and x.a[0].endswith(".inf")
                size = contains(x, lambda u: is_call(u, "helpers.compute_size_by_dict"))
                ok = size if v is True else inf if v is False else own
                ctx.put(True if ok else False if own or inf or size or x.op == "const" else None, R, nm, f.loc, f"the search starts with the cap {show(x, 3)}")
            except Undecided as u:
                ctx.unk(R, nm, f.loc, str(u))
    if not caps:
        used = any(contains(t, at("cost_cap")) for e in r.events for t in list(e.facts) + [v for v in e.d.values() if isinstance(v, T)])
        ctx.put(None if used else False, R, "cost_cap", f.loc, "the option is not used by the search")
    # search_outer: all tensors together, and pairs without a common index are tried
    con = [e for e in r.events if e.kind == "call" and len(e.args) + len(e.kws) >= 12 and e.loops]
    so = at("search_outer")
    if not con:
        ctx.unk(R, "search_outer", f.loc, "no call that considers a pair")
    its = [lp.iter for lp in r.eng.loops.values() if isinstance(lp.iter, T) and contains(lp.iter, lambda u: is_call(u, "paths._find_disconnected_subgraphs"))]
    for t in its[:1]:
        for v in (True, False):
            try:
                x = pick(t, lambda c, en: v if so(c) else None)
                comp = contains(x, lambda u: is_call(u, "paths._find_disconnected_subgraphs"))
                ctx.put(comp is not v, R, f"search_outer={v}: parts searched separately", f.loc, "unconnected parts are " + ("still searched separately: no outer product between them is considered" if comp else "searched together"))
            except Undecided as u:
                ctx.unk(R, f"search_outer={v}", f.loc, str(u))
    for e in con[:1]:
        fs = [c for c in e.facts if any(so(a) for a in atoms(c))]
        if not fs:
            ctx.put(False if not any(so(a) for x in con for c in x.facts for a in atoms(c)) else None, R, "search_outer=True: outer products", e.loc, "pairs without a common index are treated alike whatever the option says")
        for v in (True, False):
            for shared in (True, False):
                try:
                    got = all(truth_of(c, None, lambda k, en: v if so(k) else shared if k.op in ("bin", "sub", "setop", "diff") or k.op not in ("or", "and", "not", "phi", "cmp", "const") and not contains(k, so) else None) for c in fs)
                    ctx.put(got is (v or shared), R, f"search_outer={v}: a pair {'with' if shared else 'without'} a common index", e.loc, "is considered" if got else "is not considered")
                except Undecided as u:
                    ctx.unk(R, f"search_outer={v}", e.loc, str(u))
    ms = events(ctx, r, "paths._parse_minimize")
    for e in ms:
        ctx.put(True if any(at("minimize")(a) for a in list(e.args) + [v for _, v in e.kws]) else False if all(a.op == "const" for a in e.args) else None, R, "minimize decides how costs are compared", e.loc, show(e.term, 3))


STRATEGIES = {
    "auto": Fnv("paths.auto"), "auto-hq": Fnv("paths.auto_hq"), "optimal": Fnv("paths.optimal"), "branch-all": Fnv("paths.branch", {"nbranch": None}), "branch-2": Fnv("paths.branch", {"nbranch": 2}),
    "branch-1": Fnv("paths.branch", {"nbranch": 1}), "greedy": Fnv("paths.greedy"), "eager": Fnv("paths.greedy"), "opportunistic": Fnv("paths.greedy"), "dp": Fnv("paths.dynamic_programming"),
    "dynamic-programming": Fnv("paths.dynamic_programming"), "random-greedy": Fnv("path_random.random_greedy"), "random-greedy-128": Fnv("path_random.random_greedy", {"max_repeats": 128})}
FAMILY = {"paths.auto", "paths.auto_hq", "paths.optimal", "paths.branch", "paths.greedy", "paths.dynamic_programming", "path_random.random_greedy"}


def r_names(ctx):
    """the documented names of the strategies, and what 'auto' and 'auto-hq' use for how many tensors"""
    R = "strategies by name"
    tb = Tables(ctx)
    fq = "paths.get_path_fn"
    f = ctx.p.fn(fq)
    r = ctx.run(fq, public=True)
    t = r.eng.freeze(r.ret, r.state)
    name = list(r.params.values())[0]
    if not (t.op in ("idx", "get") and t.a[0].op == "gvar" and contains(t.a[1], lambda u: u is name)):
        raise Undecided("get_path_fn: " + show(t, 4))
    ctx.put(True if t.a[1] is name or mcall(t.a[1], "lower") is name else None, R, "the strategy is looked up under the name given", f.loc, show(t, 4))
    g = t.a[0]
    table = dict(tb.var(g.a[0], g.a[1]))
    where = {k: tb.loc(g.a[0], g.a[1]) for k in table}
    # registered on import
    for m in ctx.p.mods.values():
        if m.short.startswith("tests"):
            continue
        for s in m.tree.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ctx.p.lookup_expr(m, s.value.func) is mk("func", "paths.register_path_fn") and len(s.value.args) == 2:
                k = tb.val(m, s.value.args[0])
                try:
                    table[k.lower()] = tb.val(m, s.value.args[1])
                except Undecided as u:
                    table[k.lower()] = str(u)
                where[k.lower()] = f"{m.rel}:{s.lineno}"
    for n, want in STRATEGIES.items():
        nm = f"strategy '{n}'"
        if n not in table:
            ctx.put(None if any(isinstance(s, ast.For) and any(isinstance(c, ast.Call) for c in ast.walk(s)) for m in ctx.p.mods.values() if m.short == "" for s in m.tree.body) else False, R, nm, tb.loc(g.a[0], g.a[1]), "is not known")
            continue
        try:
            got = tb.unwrap(table[n], FAMILY)
            if not isinstance(got, Fnv):
                raise Undecided(str(got))
            ctx.put(got == want or got.fq == want.fq and defaults(ctx, got) == defaults(ctx, want), R, nm, where[n], f"is {got!r} instead of {want!r}")
        except Undecided as u:
            ctx.unk(R, nm, where.get(n, ""), str(u))
    # automatic choice
    B = {k: STRATEGIES[k] for k in ("optimal", "branch-all", "branch-2", "branch-1", "greedy")}
    choice = {}
    for q, sizes in (("paths.auto", list(range(1, 18)) + [30, 100]), ("paths.auto_hq", list(range(1, 60)) + [200])):
        f = ctx.p.fn(q)
        r = ctx.run(q, public=True, opaque=frozenset(FAMILY - {q}))
        t = r.eng.freeze(r.ret, r.state)
        for n in sizes:
            try:
                choice[q, n] = chosen(tb, t, n)
            except Undecided as u:
                ctx.unk(R, f"{q.split('.')[1]} for {n} tensors", f.loc, str(u))
                break
    for (q, n), got in choice.items():
        if q == "paths.auto":
            want = B["optimal" if n <= 4 else "branch-all" if n <= 6 else "branch-2" if n <= 8 else "branch-1" if n <= 14 else "greedy"]
            ctx.put(got == want or got.fq == want.fq and defaults(ctx, got) == defaults(ctx, want), R, f"auto for {n} tensors", ctx.p.fn(q).loc, f"uses {got!r} instead of {want!r}")
    order = ["paths.optimal", "paths.dynamic_programming", "path_random.random_greedy"]
    hq = [(n, got) for (q, n), got in choice.items() if q == "paths.auto_hq"]
    last = 0
    for n, got in hq:
        ok = got.fq in order and order.index(got.fq) >= last and (got.fq != order[2] or got.kw == {"max_repeats": 128})
        ctx.put(ok, R, f"auto-hq for {n} tensors", ctx.p.fn("paths.auto_hq").loc, f"uses {got!r}")
        if got.fq in order:
            last = order.index(got.fq)
    if hq:
        ctx.put({g.fq for _, g in hq} >= set(order), R, "auto-hq uses optimal, dp and random-greedy-128", ctx.p.fn("paths.auto_hq").loc, "")


DEFAULTS = {
    "contract.contract": {"out": (None,), "use_blas": (True,), "optimize": (True, "auto", None), "memory_limit": (None,), "backend": ("auto",)},
    "contract.contract_path": {"use_blas": (True,), "optimize": (True, "auto", None), "memory_limit": (None,), "shapes": (False,)},
    "contract.contract_expression": {"constants": (None, ()), "use_blas": (True,), "optimize": (True, "auto", None), "memory_limit": (None,)},
    "contract.ContractExpression.__call__": {"out": (None,), "backend": ("auto",), "evaluate_constants": (False,)},
    "parser.parse_einsum_input": {"shapes": (False,)},
    "path_random.RandomOptimizer.__init__": {"max_repeats": (32,), "max_time": (None,), "minimize": ("flops",), "parallel": (False,), "pre_dispatch": (128,)},
    "path_random.RandomGreedy.__init__": {"cost_fn": ("memory-removed-jitter",), "temperature": (1,), "rel_temperature": (True,), "nbranch": (8,)},
    "paths.BranchBound.__init__": {"nbranch": (None,), "cutoff_flops_factor": (4,), "minimize": ("flops",), "cost_fn": ("memory-removed",)},
    "paths.optimal": {"memory_limit": (None,)},
    "paths.branch": {"memory_limit": (None,), "nbranch": (None,), "cutoff_flops_factor": (4,), "minimize": ("flops",), "cost_fn": ("memory-removed",)},
    "paths.greedy": {"memory_limit": (None,), "choose_fn": (None,), "cost_fn": ("memory-removed",)},
    "paths.auto": {"memory_limit": (None,)},
    "paths.auto_hq": {"memory_limit": (None,)},
    "path_random.thermal_chooser": {"nbranch": (8,), "temperature": (1,), "rel_temperature": (True,)},
    "paths.DynamicProgramming.__init__": {"minimize": ("flops",), "search_outer": (False,), "cost_cap": (True,)},
}


def r_defaults(ctx):
    """options that are not given have the documented value"""
    R = "documented defaults"
    for fq, want in DEFAULTS.items():
        if fq not in ctx.p.fns:
            ctx.unk(R, fq, "", "not in the source")
            continue
        a = ctx.p.fns[fq].node.args
        ps = a.posonlyargs + a.args
        sig = dict([(p.arg, d) for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults)] + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None])
        loc = ctx.p.fns[fq].loc
        for n, vals in want.items():
            nm = f"{fq.replace('.__init__', '').split('.', 1)[1]}: {n}"
            d = sig.get(n)
            try:
                v = ast.literal_eval(d) if d is not None else ...
            except ValueError:
                v = ...
            if v is ... or v is None and None not in vals:
                # taken from elsewhere, or a marker
                ctx.unk(R, nm, loc, "no constant default")
            else:
                ctx.put(any(v == w and isinstance(v, bool) == isinstance(w, bool) for w in vals), R, nm, loc, f"the default is {v!r}, documented is {vals[0]!r}")


def defaults(ctx, f):
    """options of a strategy with the defaults filled in"""
    a = ctx.p.fns[f.fq].node.args
    ps = a.posonlyargs + a.args
    out = {}
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, ast.Constant):
            out[p.arg] = d.value
    out.update(f.kw)
    return out


def chosen(tb, t, n):
    """the strategy a dispatching function uses for n tensors"""
    lf = numleaf(lambda u: n if is_call(u, "builtins.len") else None, lambda c, en: has(tb, c, n))
    t = pick(t, lf)
    if t.op != "call":
        raise Undecided("dispatch " + show(t, 4))
    g = pick(t.a[0], lf)
    kw = {k: cval(v) for k, v in t.a[2] if v.op == "const"}
    if g.op in ("get", "idx"):
        tab = tb.term(g.a[0])
        k = int(numeval(g.a[1], lambda u: n if is_call(u, "builtins.len") else None))
        if not isinstance(tab, dict):
            raise Undecided("table")
        if k in tab:
            v = tab[k]
        elif g.op == "get":
            v = tb.term(pick(g.a[2], lf))
        else:
            raise Undecided(f"no entry for {k}")
    else:
        v = tb.term(g)
    if not isinstance(v, Fnv):
        raise Undecided("dispatch " + show(g, 3))
    return tb.unwrap(Fnv(v.fq, {**v.kw, **kw}), FAMILY)


def has(tb, c, n):
    if c.op == "cmp" and c.a[0] == "in" and c.a[2].op == "gvar" and is_call(c.a[1], "builtins.len"):
        d = tb.term(c.a[2])
        return n in d
    return None


def check(ctx):
    for fq in ("contract.contract", "contract.contract_expression", "contract._core_contract", "paths.greedy", "paths.branch", "path_random.RandomGreedy.__init__"):
        if fq not in ctx.p.fns:
            raise AnalysisBroken(f"public function {fq} is missing")
    ctx.rule("contract", r_contract)
    ctx.rule("planning", r_plan)
    ctx.rule("expressions", r_expression)
    ctx.rule("execution", r_execute)
    ctx.rule("einsum options", r_einsum)
    ctx.rule("branching search", r_branch)
    ctx.rule("greedy search", r_greedy)
    ctx.rule("random search", r_random)
    ctx.rule("thermal chooser", r_chooser)
    ctx.rule("dynamic programming", r_dp)
    ctx.rule("strategies by name", r_names)
    ctx.rule("defaults", r_defaults)
