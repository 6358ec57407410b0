"""C16: strategy names select the documented search, in any letter case, and never silently change meaning."""
import itertools

from sa.engine import is_call, mcall
from sa.kit import Undecided, numleaf, phis, pick, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, cmp, const, contains, cval, is_const, mk, subst, subterms
from .common import call_arg

DESC = ("Constant propagation over the module-level strategy tables and value-flow analysis of the registry functions: keys stored and looked up "
        "are compared modulo case folding, stores must be dominated by an absence test, the tables are evaluated for every number of "
        "terms, and the search actually invoked by contract_path is evaluated for every kind of `optimize` argument.")

BRANCH = {"branch-all": None, "branch-2": 2, "branch-1": 1}
NAMES = {"auto": "paths.auto", "auto-hq": "paths.auto_hq", "optimal": "paths.optimal", "greedy": "paths.greedy", "eager": "paths.greedy",
         "opportunistic": "paths.greedy", "dp": "paths.dynamic_programming", "dynamic-programming": "paths.dynamic_programming",
         "random-greedy": "path_random.random_greedy"}


def fold(t, p):
    """'lower' / 'raw' / None: how a key is derived from the name given"""
    if t is p:
        return "raw"
    if is_call(t, "builtins.str") and len(t.a[1]) == 1:
        return fold(t.a[1][0], p)
    for m in ("lower", "casefold", "upper"):
        o = mcall(t, m)
        if o is not None:
            return m if fold(o, p) else None
    for m in ("strip", "replace"):
        o = mcall(t, m)
        if o is not None:
            return None
    return None


def table_of(ctx):
    r = ctx.run("paths.get_path_fn", public=True)
    t = r.eng.freeze(r.ret, r.state)
    g = [s for s in subterms(t) if s.op == "gvar" and s.a[0] == "paths"]
    if not g:
        raise Undecided("get_path_fn returns " + show(t, 4))
    return r, t, g[0]


def partial_of(t):
    """(function, {keyword: value}) of a possibly partially applied function"""
    if t.op == "func":
        return t.a[0], {}
    if is_call(t, "functools.partial") and t.a[1] and t.a[1][0].op == "func" and len(t.a[1]) == 1:
        return t.a[1][0].a[0], dict(t.a[2])
    if t.op == "gvar":
        return None, None
    return None, None


def r_lookup(ctx):
    R = "lookup of a strategy"
    r, t, g = table_of(ctx)
    p = list(r.params.values())[0]
    where = ctx.p.fn("paths.get_path_fn").loc
    rets = [e for e in r.evs("return") if e.fq == "paths.get_path_fn"]
    for e in rets:
        v = r.eng.freeze(e.value, r.state)
        for lits, x in phis(v):
            if x.op == "idx" and x.a[0] is g:
                k = fold(x.a[1], p)
                ctx.put({"lower": True, "raw": False, "upper": False, "casefold": True}.get(k), R, "name is compared without regard to case", e.loc,
                        f"the name is looked up as {show(x.a[1], 3)} in a table of lower-case names")
            elif x.op == "get" and x.a[0] is g and any(f is cmp("in", x.a[1], g) for f in e.facts):
                ctx.put({"lower": True, "raw": False, "upper": False, "casefold": True}.get(fold(x.a[1], p)), R, "name is compared without regard to case", e.loc,
                        f"the name is looked up as {show(x.a[1], 3)} in a table of lower-case names")
            elif x.op == "get" and any(contains(f, x) for f in e.facts):
                ctx.unk(R, "unknown names are rejected", e.loc, show(x, 4))
            elif (x.op == "get" and x.a[0] is g) or x.op == "func":
                ctx.bad(R, "unknown names are rejected", e.loc, f"an unknown name yields {show(x, 4)} instead of an error")
            else:
                ctx.unk(R, "value returned", e.loc, show(x, 4))
    # rejection: subscripting a dict raises KeyError by itself, so any plain subscript rejects
    if all(x.op in ("idx", "get") for e in rets for x in [r.eng.freeze(e.value, r.state)]):
        ctx.ok(R, "unknown names are rejected", where)
    if any(s[1] and s[1] != ["finally"] for e in rets for s in e.tries):
        ctx.unk(R, "rejection reaches the caller", where, "the lookup is inside a handler")


def r_register(ctx):
    R = "registration"
    _, _, g = table_of(ctx)
    r = ctx.run("paths.register_path_fn", public=True)
    ps = list(r.params.values())
    if len(ps) != 2:
        raise Undecided("register_path_fn takes " + str(len(ps)))
    name, fn = ps
    st = [e for e in r.evs("mutate") if e.obj is g]
    if not st:
        ctx.put(False if not list(r.evs("escape")) else None, R, "the strategy is stored", ctx.p.fn("paths.register_path_fn").loc, "nothing is stored in the table")
        return
    for e in st:
        if e.op == "setitem":
            k, v = e.args[0], e.args[1]
        elif e.op == "setdefault":
            k, v = e.args[0], e.args[1]
        elif e.op == "update" and e.args and e.args[0].op == "dict" and len(e.args[0].a) == 1:
            k, v = e.args[0].a[0]
        else:
            ctx.unk(R, "store", e.loc, f"{e.op}")
            continue
        kk = fold(k, name)
        ctx.put({"lower": True, "casefold": True, "raw": False, "upper": False}.get(kk), R, "stored where lookups search", e.loc,
                f"stored under {show(k, 3)}, but lookups use the lower-case name")
        ctx.put(True if v is fn else None if contains(v, fn) else False, R, "the given function is stored", e.loc, f"stores {show(v, 3)}")
        absent = mk("not", cmp("in", k, g))
        if any(f is absent for f in e.facts):
            ctx.ok(R, "an existing strategy is never replaced", e.loc)
        elif e.op == "setdefault":
            ctx.bad(R, "an existing name is rejected", e.loc, "registering an existing name is silently ignored")
        else:
            tests = [f for f in e.facts if contains(f, g)]
            if not tests:
                ctx.bad(R, "an existing strategy is never replaced", e.loc, "the store is not guarded by a test that the name is free")
            else:
                bad = [f for f in tests if f.op == "not" and f.a[0].op == "cmp" and f.a[0].a[0] == "in" and f.a[0].a[2] is g and fold(f.a[0].a[1], name) != kk
                       and fold(f.a[0].a[1], name)]
                if bad:
                    ctx.bad(R, "an existing strategy is never replaced", e.loc, f"the test is made on {show(bad[0].a[0].a[1], 3)} but the store on {show(k, 3)}")
                else:
                    ctx.put(reachable(e.facts, cmp("in", k, g)), R, "an existing strategy is never replaced", e.loc,
                            "the store is reached for an existing name when " + " and ".join(show(f, 4) for f in tests))
        rs = [x for x in r.evs("raise") if any(f is cmp("in", k, g) for f in x.facts)]
        if rs:
            ctx.ok(R, "an existing name is rejected", rs[0].loc)


def reachable(facts, taken):
    """False: the store can be reached although the name is taken; None: cannot tell; True: it cannot"""
    atoms = []

    def walk(c):
        if c.op in ("not", "and", "or"):
            for x in c.a:
                walk(x)
        elif c.op == "phi":
            raise Undecided("condition " + show(c, 4))
        elif c not in atoms and c is not taken and c.op != "const":
            atoms.append(c)

    for f in facts:
        walk(f)
    if len(atoms) > 6 or not any(contains(f, taken) for f in facts):
        return None
    for vals in itertools.product((False, True), repeat=len(atoms)):
        env = dict(zip(atoms, vals), **{})
        env[taken] = True
        if all(truth_of(f, env, lambda c, v: v.get(c)) for f in facts):
            return False
    return True


def r_names(ctx):
    R = "named strategies"
    r, _, g = table_of(ctx)
    tab = r.eng.global_value(g)
    if tab is None or tab.op != "dict":
        raise Undecided("table " + (show(tab, 4) if tab is not None else ""))
    ents = {cval(k): v for k, v in tab.a if k.op == "const"}
    # registrations made on import of the package
    for n, v in registered(ctx):
        ents.setdefault(n, v)
    where = "opt_einsum/paths.py"
    for n in sorted(ents):
        if n != n.lower():
            ctx.bad(R, f"{n}: reachable", where, "the name is not lower case, so no lookup finds it")
    for n, want in sorted(NAMES.items()):
        v = ents.get(n)
        if v is None:
            ctx.put(False if n != "random-greedy" else None, R, n, where, "the documented strategy is not in the table")
            continue
        f, kws = partial_of(v)
        if f is None:
            ctx.unk(R, n, where, show(v, 4))
        else:
            ctx.put(f == want and not kws, R, n, where, f"runs {show(v, 4)}")
    for n, nb in BRANCH.items():
        v = ents.get(n)
        if v is None:
            ctx.bad(R, n, where, "the documented strategy is not in the table")
            continue
        f, kws = partial_of(v)
        if f is None:
            ctx.unk(R, n, where, show(v, 4))
            continue
        got = kws.get("nbranch", NONE)
        ctx.put(f == "paths.branch" and is_const(got, nb) and set(kws) <= {"nbranch"}, R, n, where, f"runs {show(v, 4)}")
    v = ents.get("random-greedy-128")
    if v is not None:
        f, kws = partial_of(v)
        ctx.put(None if f is None else f == "path_random.random_greedy" and is_const(kws.get("max_repeats", NONE), 128), R, "random-greedy-128", where, f"runs {show(v, 4)}")


def registered(ctx):
    """registrations executed when the package is imported"""
    import ast
    from sa.engine import Engine
    out = []
    eng = Engine(ctx.p)
    for m in ctx.p.mods.values():
        for s in m.tree.body:
            for c in ast.walk(s):
                if isinstance(c, ast.Call) and len(c.args) == 2 and isinstance(c.args[0], ast.Constant) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    f = c.func
                    nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
                    if nm == "register_path_fn":
                        a = c.args[1]
                        t = ctx.p.lookup_expr(m, a)
                        if t is not None:
                            t = ctx.p.resolve(t)
                            if t.op == "gvar":
                                t = eng.global_value(t) or t
                            out.append((str(c.args[0].value).lower(), t))
    return out


def dget(tab, n, dflt):
    """value of table.get(n, default) for a term built from literal and comprehension dicts"""
    if tab.op == "dmerge":
        for part in reversed(tab.a):
            v = dget(part, n, None)
            if v is not None:
                return v
        return dflt
    if tab.op == "dict":
        for k, v in reversed(tab.a):
            if k.op != "const":
                raise Undecided("key " + show(k, 3))
            if cval(k) == n:
                return v
        return dflt
    if tab.op == "setitem":
        c, k, v = tab.a
        if k.op == "const":
            return v if cval(k) == n else dget(c, n, dflt)
    if tab.op == "comp" and tab.a[0] == "dict" and len(tab.a[2]) == 1 and tab.a[3] is TRUE and tab.a[1].op == "tup":
        it = tab.a[2][0]
        k, v = tab.a[1].a
        if k is mk("elem", it, 0) and is_call(it, "builtins.range") and all(x.op == "const" for x in it.a[1]):
            return v if n in range(*[cval(x) for x in it.a[1]]) else dflt
    raise Undecided("table " + show(tab, 5))


def auto_choice(ctx, fq, n):
    """the function an 'auto' strategy calls for n terms, with the arguments passed"""
    r = ctx.run(fq, public=True, opaque=("paths.optimal", "paths.branch", "paths.greedy", "paths.dynamic_programming", "path_random.random_greedy"))
    ps = list(r.params.values())
    t = r.eng.freeze(r.ret, r.state)

    def val(x):
        if is_call(x, "builtins.len") and strip(x.a[1][0]) is ps[0]:
            return n
        return None

    def res(x):
        x = pick(x, numleaf(val, inleaf))
        if x.op == "gvar":
            return r.eng.global_value(x) or x
        if x.op == "get" or (x.op == "call" and mcall(x, "get") is not None):
            d, k, *df = x.a if x.op == "get" else (mcall(x, "get"),) + tuple(x.a[1])
            if val(k) is not None or k.op == "const":
                m = val(k) if val(k) is not None else cval(k)
                tab = r.eng.global_value(d) if d.op == "gvar" else d
                v = dget(tab, m, df[0] if df else NONE)
                return res(v)
        if x.op == "idx" and val(x.a[1]) is not None:
            tab = r.eng.global_value(x.a[0]) if x.a[0].op == "gvar" else x.a[0]
            v = dget(tab, val(x.a[1]), None)
            if v is None:
                raise Undecided("missing entry")
            return res(v)
        if x.op == "call":
            return mk("call", res(x.a[0]), x.a[1], x.a[2])
        return x

    def inleaf(c, env):
        if c.op == "cmp" and c.a[0] == "in" and val(c.a[1]) is not None:
            tab = r.eng.global_value(c.a[2]) if c.a[2].op == "gvar" else c.a[2]
            return dget(tab, val(c.a[1]), None) is not None
        return None

    t = res(t)
    if t.op != "call":
        raise Undecided(show(t, 4))
    return ps, t


AUTO = [(range(1, 5), "paths.optimal", {}), (range(5, 7), "paths.branch", {"nbranch": None}), (range(7, 9), "paths.branch", {"nbranch": 2}),
        (range(9, 15), "paths.branch", {"nbranch": 1}), (range(15, 40), "paths.greedy", {})]
HQ = [(range(1, 6), "paths.optimal", {}), (range(6, 17), "paths.dynamic_programming", {}), (range(17, 40), "path_random.random_greedy", {"max_repeats": 128})]


def r_auto(ctx):
    R = "automatic choice by number of terms"
    for fq, tab in (("paths.auto", AUTO), ("paths.auto_hq", HQ)):
        where = ctx.p.fn(fq).loc
        for rng, want, wk in tab:
            for n in rng:
                try:
                    ps, t = auto_choice(ctx, fq, n)
                except Undecided as e:
                    ctx.unk(R, f"{fq}: {n} terms", where, str(e))
                    continue
                f, kws = partial_of(t.a[0])
                kws = dict(kws or {}, **dict(t.a[2])) if f else {}
                if f is None:
                    ctx.unk(R, f"{fq}: {n} terms", where, show(t.a[0], 4))
                    continue
                extra = {k: v for k, v in kws.items() if k in ("nbranch", "max_repeats")}
                good = f == want and all(is_const(extra.get(k, NONE), v) for k, v in wk.items()) and set(extra) <= set(wk)
                ctx.put(good, R, f"{fq}: {n} terms", where, f"{n} terms are searched with {show(t.a[0], 3)}")
        ps, t = auto_choice(ctx, fq, 3)
        pos = list(t.a[1]) + [v for k, v in t.a[2]]
        ctx.put(list(t.a[1])[:4] == ps[:4] or None if len(t.a[1]) < 4 else list(t.a[1])[:4] == ps[:4], R, f"{fq}: passes the contraction on", where,
                "passes " + ", ".join(show(x, 3) for x in pos))


OPAQUE = ("helpers.find_contraction", "helpers.flop_count", "helpers.compute_size_by_dict", "blas.can_blas", "parser.parse_einsum_input",
          "parser.find_output_shape", "paths.get_path_fn", "contract._choose_memory_arg", "parser.get_shape", "contract.PathInfo")


def r_requested(ctx):
    R = "the requested strategy is the one run"
    fq = "contract.contract_path"
    r = ctx.run(fq, public=True, opaque=OPAQUE)
    opt = r.params.get("optimize")
    where = ctx.p.fn(fq).loc
    rets = [e for e in r.evs("return") if e.fq == fq]
    vals = []
    for e in rets:
        v = r.eng.freeze(e.value, r.state)
        if v.op == "tup" and len(v.a) == 2 and not (is_call(v.a[0]) or v.a[0].op == "idx"):
            vals.append((e, v.a[0]))
    if opt is None or len(vals) != 1:
        raise Undecided("returned path not found")
    e, path = vals[0]

    def resolve(kind, n):
        def isinst(names):
            return {"str": "builtins.str" in names or "str" in names,
                    "optimizer": any(x.endswith("PathOptimizer") for x in names),
                    "path": any(x in ("list", "tuple", "builtins.list", "builtins.tuple") for x in names)}.get(kind, False)

        def val(t):
            if is_call(t, "builtins.len") and contains(t, lambda x: is_call(x, "parser.parse_einsum_input") or x.op == "func" and x.a[0] == "parser.parse_einsum_input"):
                return n
            return None

        def more(c, env):
            if c.op == "cmp" and c.a[0] in ("is", "eq"):
                x = pick(c.a[1], leaf)
                if x is opt and c.a[2] in (TRUE, FALSE, NONE):
                    return {"True": TRUE, "None": NONE, "False": FALSE}.get(kind) is c.a[2]
                if x.op == "const" and c.a[2].op == "const":
                    return x is c.a[2]
            if c.op == "isinstance":
                x = pick(c.a[0], leaf)
                names = {y.a[0] for y in subterms(c.a[1]) if y.op in ("ext", "class")}
                if x.op == "const":
                    return type(cval(x)).__name__ in {y.replace("builtins.", "") for y in names}
                if x is opt:
                    return isinst(names)
            if is_call(c, "builtins.callable") and pick(c.a[1][0], leaf) is opt:
                return kind == "optimizer"
            return None

        leaf = numleaf(val, more)

        def deep(t):
            t = pick(t, leaf)
            if t.op == "call":
                return mk("call", deep(t.a[0]), tuple(deep(x) if x.op == "phi" else x for x in t.a[1]), t.a[2])
            return t

        return deep(path)

    def everything(t, n):
        """a single step contracting all terms"""
        if t.op == "lst" and len(t.a) == 1:
            x = strip(t.a[0])
            if is_call(x, "builtins.range") and len(x.a[1]) == 1:
                return True
        return None

    for kind in ("True", "None", "False", "str", "optimizer", "path"):
        for n in (1, 2, 3, 6):
            try:
                t = resolve(kind, n)
            except Undecided as ex:
                ctx.unk(R, f"optimize={kind}, {n} terms", where, str(ex))
                continue
            what = f"optimize={kind}, {n} terms"
            msg = "the path is " + show(t, 4)
            if kind == "False":
                ctx.put(True if everything(t, n) else False if t is opt or is_call(t) else None, R, what, e.loc, msg)
            elif kind == "path":
                ctx.put(True if strip(t) is opt else False if everything(t, n) or t.op == "call" else None, R, what, e.loc, msg)
            elif n <= 2 and everything(t, n):
                ctx.ok(R, what, e.loc)
            else:
                want = mk("func", "paths.get_path_fn")
                if t.op != "call":
                    ctx.put(False if everything(t, n) else None, R, what, e.loc, msg)
                    continue
                f = t.a[0]
                if kind == "optimizer":
                    good = f is opt
                    bad = f.op == "call" and f.a[0] is want
                else:
                    key = opt if kind == "str" else const("auto")
                    good = f.op == "call" and f.a[0] is want and len(f.a[1]) == 1 and f.a[1][0] is key
                    bad = (f.op == "call" and f.a[0] is want and f.a[1][0].op == "const" and not good) or f is opt
                ctx.put(True if good else False if bad else None, R, what, e.loc, msg)
                if good and n == 6:
                    pa = next((s for s in subterms(path) if s.op == "call" and s.a[0] is mk("func", "parser.parse_einsum_input")), None)
                    if pa is None or len(t.a[1]) < 3:
                        ctx.unk(R, f"optimize={kind}: the contraction handed over", e.loc, msg)
                        continue
                    ins, outs = (mk("idx", pa, const(k)) for k in (0, 1))
                    sides = [("in" if contains(a, ins) else "") + ("out" if contains(a, outs) else "") for a in t.a[1][:2]]
                    ctx.put(True if sides == ["in", "out"] else False if "" not in sides else None, R, f"optimize={kind}: the contraction handed over", e.loc,
                            f"the search is given {show(t.a[1][0], 4)} as terms and {show(t.a[1][1], 4)} as output")


def check(ctx):
    ctx.rule("lookup of a strategy", r_lookup)
    ctx.rule("registration", r_register)
    ctx.rule("named strategies", r_names)
    ctx.rule("automatic choice by number of terms", r_auto)
    ctx.rule("the requested strategy is the one run", r_requested)
