"""C14: the best path kept by a search is coherent and only ever replaced by a strictly better one."""
from sa.engine import is_call, mcall
from sa.kit import Undecided, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import cmp, const, contains, cval, mk, subterms
from .common import SEARCH_OPAQUE, call_arg, cases, nested, recursive_nested

DESC = ("Guard-dominance and record-coherence analysis: every write to a 'best so far' record is grouped with the writes made under the "
        "same conditions, must replace all of its fields together, and its path condition is evaluated over the order relations "
        "(less / equal / greater) between the new and the recorded cost; the comparison functions are decided over the same relation table.")

KEYS = ("flops", "size", "ssa_path")


def order_leaf(rel):
    """leaf evaluator for comparisons of scalars and tuples whose pairwise order is given by rel[(a, b)] in {-1,0,1}"""

    def sgn(a, b):
        if a is b:
            return 0
        if (a, b) in rel:
            return rel[(a, b)]
        if (b, a) in rel:
            return -rel[(b, a)]
        if a.op in ("tup", "lst") and b.op in ("tup", "lst"):
            for x, y in zip(a.a, b.a):
                s = sgn(x, y)
                if s is None:
                    return None
                if s:
                    return s
            return (len(a.a) > len(b.a)) - (len(a.a) < len(b.a))
        return None

    def leaf(c, env):
        if c.op == "cmp" and c.a[0] in ("lt", "eq", "is"):
            s = sgn(c.a[1], c.a[2])
            if s is None:
                return None
            return s < 0 if c.a[0] == "lt" else s == 0
        return None

    return leaf


def better_table(ctx, fq):
    """{(flops relation, size relation): result}"""
    r = ctx.run(fq)
    ps = list(r.params.values())
    if len(ps) != 4:
        raise Undecided(f"{fq} does not take four quantities")
    t = r.eng.freeze(r.ret, r.state)
    out = {}
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            out[a, b] = truth_of(t, {}, order_leaf({(ps[0], ps[2]): a, (ps[1], ps[3]): b}))
    return out


WORD = {-1: "lower", 0: "equal", 1: "higher"}


def r_better(ctx):
    R = "comparison of candidates"
    r = ctx.run("paths.get_better_fn", public=True)
    t = r.eng.freeze(r.ret, r.state)
    g = [s for s in subterms(t) if s.op == "gvar"]
    if t.op == "idx" and g and t.a[0] is g[0]:
        tab = r.eng.global_value(g[0])
        if tab.op != "dict":
            raise Undecided("table of comparisons " + show(tab, 4))
        ents = {cval(k): v for k, v in tab.a if k.op == "const"}
    else:
        p = list(r.params.values())[0]
        ents = {}
        from sa.terms import subst
        for n in ("flops", "size"):
            v = subst(t, {p: const(n)})
            if v.op in ("func", "clos"):
                ents[n] = v
    for n, prim in (("flops", 0), ("size", 1)):
        f = ents.get(n)
        if f is None:
            ctx.put(False if t.op == "idx" else None, R, f"minimize={n}", r.eng.p.fn("paths.get_better_fn").loc, "no comparison is registered")
            continue
        if f.op != "func":
            ctx.unk(R, f"minimize={n}", "", show(f, 3))
            continue
        tb = better_table(ctx, f.a[0])
        bad = None
        for (a, b), v in tb.items():
            x, y = (a, b) if prim == 0 else (b, a)
            want = x < 0 or (x == 0 and y < 0)
            if v != want:
                bad = f"flops {WORD[a]} and size {WORD[b]} than the best counts as {'better' if v else 'not better'}"
        ctx.put(bad is None, R, f"minimize={n}", ctx.p.fn(f.a[0]).loc, bad or "")


def is_best_read(t, key):
    return t.op == "idx" and t.a[1] is const(key)


def path_field(r):
    """the field of a search's own record that holds the path: 'ssa_path', or the one other field written along with the cost"""
    keys = set()
    for e in r.evs("mutate"):
        ks = [e.args[0]] if e.op == "setitem" else [k for k, v in e.args[0].a] if e.op == "update" and e.args and e.args[0].op == "dict" else []
        ks = {cval(k) for k in ks if k.op == "const" and isinstance(cval(k), str)}
        if e.op == "setitem" or ks & set(KEYS):
            keys |= ks
    other = keys - {"flops", "size"}
    return "ssa_path" if "ssa_path" in other or len(other) != 1 else other.pop()


def records(r, pf="ssa_path"):
    """writes to 'best' records, grouped by path condition"""
    groups = {}
    KEYS = ("flops", "size", pf)
    for e in r.evs("mutate"):
        if e.op == "setitem" and e.args[0].op == "const" and cval(e.args[0]) in KEYS:
            groups.setdefault((e.facts, tuple(x[0] for x in e.loops)), []).append(e)
        elif e.op == "update" and e.args and e.args[0].op == "dict" and any(cval(k) in KEYS for k, v in e.args[0].a if k.op == "const"):
            groups.setdefault((e.facts, tuple(x[0] for x in e.loops)), []).append(e)
    out = []
    for (facts, loops), evs in groups.items():
        rec = {}
        for e in evs:
            if e.op == "update":
                for k, v in e.args[0].a:
                    rec[cval(k)] = v
            else:
                rec[cval(e.args[0])] = e.args[1]
        out.append((facts, loops, rec, evs))
    return out


def same(a, b):
    if a is b:
        return True
    return a is not None and b is not None and a.op == b.op == "add" and sorted(x.n for x in a.a) == sorted(x.n for x in b.a)


def guard_status(facts, rec):
    """'strict' / 'weak' / 'wrong' / 'none' / None: how a path condition constrains the stored record against the best one"""
    rel = [f for f in facts if contains(f, lambda x: x.op == "idx" and x.a[1] in (const("flops"), const("size")))]
    if not rel or not any(same(x, rec.get("flops")) or same(x, rec.get("size")) for f in rel for x in subterms(f)):
        return "none", ""
    res = {}
    used = set()
    lits = {x for f in rel for x in ([f] if f.op != "and" else f.a)}
    msg = ""
    for a in (-1, 0, 1):
        for b in (-1, 0, 1) if "size" in rec else (0,):
            def leaf(c, env):
                if c.op == "cmp" and c.a[0] in ("lt", "eq"):
                    for x, y, s in ((c.a[1], c.a[2], 1), (c.a[2], c.a[1], -1)):
                        if is_best_read(y, "flops") and same(x, rec.get("flops")):
                            d = a * s
                            return d < 0 if c.a[0] == "lt" else d == 0
                        if is_best_read(y, "size") and same(x, rec.get("size")):
                            d = b * s
                            return d < 0 if c.a[0] == "lt" else d == 0
                    if contains(c, lambda x: is_best_read(x, "flops") or is_best_read(x, "size")):
                        return None
                if c.op == "call" and len(c.a[1]) == 4 and (c.a[0].op in ("attr", "func") and "better" in str(c.a[0].a[-1])):
                    x = c.a[1]
                    fresh = is_best_read(x[2], "flops") and is_best_read(x[3], "size")
                    if same(x[0], rec.get("flops")) and same(x[1], rec.get("size")) and fresh:
                        used.add("better")
                        return a < 0 or (a == 0 and b < 0)
                    if x[0] is rec.get("size") and x[1] is rec.get("flops"):
                        raise Wrong("flops and size are swapped in the comparison")
                    if is_best_read(x[2], "size") and is_best_read(x[3], "flops"):
                        raise Wrong("flops and size of the best record are swapped in the comparison")
                    if fresh and same(x[0], rec.get("flops")) and "size" in rec and c in lits:
                        raise Wrong(f"the size compared ({show(x[1], 3)}) is not the size recorded")
                    if fresh and same(x[1], rec.get("size")) and c in lits:
                        raise Wrong(f"the cost compared ({show(x[0], 3)}) is not the cost recorded")
                return None

            vals = []
            for f in rel:
                try:
                    vals.append(truth_of(f, {}, leaf))
                except Undecided as e:
                    msg = str(e)
            if any(v is False for v in vals):
                res[a, b] = False
            elif vals:
                res[a, b] = True
            else:
                res[a, b] = None
    if all(v is None for v in res.values()):
        return None, msg
    if any(res[k] for k in res if k[0] > 0):
        if any(res[k] for k in res if k[0] < 0) or True:
            if all(res[k] for k in res):
                return None, msg
            return "wrong", "a costlier path replaces the recorded one"
    if "size" in rec and "better" not in used and not any(contains(f, lambda x: x.op == "attr" and x.a[1] == "minimize") for f in facts):
        return "wrong", "the objective chosen by the user is not consulted"
    if res.get((0, 0)):
        return "weak", "an equally good path replaces the recorded one"
    if not res.get((-1, -1), res.get((-1, 0))):
        return "wrong", "a better path does not replace the recorded one"
    return "strict", ""


class Wrong(Exception):
    pass


def judge(ctx, R, name, r, need, leafvals=None, pf="ssa_path"):
    recs = records(r, pf)
    if not recs:
        raise Undecided(f"{name}: no best record is written")
    for facts, loops, rec, evs in recs:
        what = f"{name}: record written at {'the end of a path' if leafvals and rec.get('flops') in leafvals else 'a candidate' if loops else 'the record'}"
        miss = [k for k in need if k not in rec]
        ctx.put(not miss, R, what + ": all fields together", evs[0].loc, f"{', '.join(miss)} of the record is not replaced with the rest")
        if leafvals and rec.get("flops") in leafvals:
            continue
        if "flops" not in rec:
            continue
        try:
            s, why = guard_status(facts, rec)
        except Wrong as e:
            ctx.bad(R, what + ": only when better", evs[0].loc, str(e))
            continue
        if s is None:
            ctx.unk(R, what + ": only when better", evs[0].loc, why)
        elif s == "none":
            ctx.bad(R, what + ": only when better", evs[0].loc, "the best record is overwritten without comparing it")
        else:
            ctx.put(s == "strict", R, what + ": only when better", evs[0].loc, why)
    return recs


def r_optimal(ctx):
    R = "best of the exhaustive search"
    fq = recursive_nested(ctx, "paths.optimal")
    r = ctx.run(fq, opaque=SEARCH_OPAQUE)
    leaf = set(r.params.values())
    pf = path_field(r)
    recs = judge(ctx, R, "optimal", r, ("flops", pf), leaf, pf)
    leafrec = [rec for f, l, rec, e in recs if rec.get("flops") in leaf]
    if not leafrec:
        raise Undecided("optimal: no record at the end of a path")
    fp = next(n for n, t in r.params.items() if t is leafrec[0]["flops"])
    pp = next((n for n, t in r.params.items() if t is leafrec[0].get(pf)), None)
    for e in r.evs("call"):
        if e.callee is mk("func", fq) or e.d.get("recursive"):
            a = call_arg(e, ctx.p.fn(fq), fp)
            if a is None:
                ctx.unk(R, "optimal: descent only into better paths", e.loc)
                continue
            s, why = guard_status(e.facts, {"flops": a})
            if s == "none":
                ctx.bad(R, "optimal: descent only into better paths", e.loc, "a path is completed (and recorded) without having been compared with the best one")
            elif s is None:
                ctx.unk(R, "optimal: descent only into better paths", e.loc, why)
            else:
                ctx.put(s in ("strict",), R, "optimal: descent only into better paths", e.loc, why)
            # the flops that travel with the path grow by the pair's cost
            base = r.params[fp]
            if a.op == "add" and base in a.a and len(a.a) == 2:
                ctx.ok(R, "optimal: cost accumulates along the path", e.loc)
            elif a is base or (a.op != "add" and not contains(a, base)):
                ctx.bad(R, "optimal: cost accumulates along the path", e.loc, "the cost handed down is not the running cost plus the pair's cost: " + show(a, 4))
            else:
                ctx.unk(R, "optimal: cost accumulates along the path", e.loc, show(a, 4))
    outer = ctx.run("paths.optimal", public=True, opaque=SEARCH_OPAQUE)
    ret(ctx, R, "optimal", outer, pf)
    inits(ctx, R, "optimal", outer)


def ret(ctx, R, name, r, pf="ssa_path"):
    t = r.eng.freeze(r.ret, r.state)
    loc = ctx.p.fn(r.frame.fq).loc
    if is_call(t, "paths.ssa_to_linear") and t.a[1]:
        x = t.a[1][0]
        v = None
        for lits, y in cases(x):
            w = True if is_best_read(y, pf) else False if is_best_read(y, "path") else None if not (y.op == "tup" and not y.a and lits) else "empty"
            if w == "empty":
                continue
            v = w if v is None or w is False else (v if w else None)
            if w is None:
                v = None
                break
        ctx.put(v, R, f"{name}: returns the recorded path", loc, show(x, 3))
    else:
        ctx.unk(R, f"{name}: returns the recorded path", loc, show(t, 3))


def inits(ctx, R, name, r):
    for e in r.evs("new"):
        pass
    import ast
    fn = ctx.p.fn(r.frame.fq)
    # the record starts from infinity
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Dict) and any(isinstance(k, ast.Constant) and k.value in ("flops", "size") for k in n.keys):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value in ("flops", "size"):
                    s = ast.unparse(v).replace('"', "'")
                    good = s in ("float('inf')", "math.inf", "np.inf", "inf")
                    num = isinstance(v, ast.Constant) and isinstance(v.value, (int, float))
                    ctx.put(True if good else False if num else None, R, f"{name}: the record starts at infinity ({k.value})", f"{fn.mod.rel}:{n.lineno}",
                            f"starts at {s}, so paths that cost more are never recorded")


def r_branch(ctx):
    R = "best of the branching search"
    if "paths.BranchBound.__call__" not in ctx.p.fns:
        raise AnalysisBroken("BranchBound is missing")
    fq = recursive_nested(ctx, "paths.BranchBound.__call__")
    r = ctx.run(fq, opaque=SEARCH_OPAQUE)
    leaf = set(r.params.values())
    recs = judge(ctx, R, "BranchBound", r, KEYS, leaf)
    leafrec = [rec for f, l, rec, e in recs if rec.get("flops") in leaf]
    if not leafrec:
        raise Undecided("BranchBound: no record at the end of a path")
    lr = leafrec[0]
    names = {k: next((n for n, t in r.params.items() if t is lr.get(k)), None) for k in KEYS}
    # candidates
    cands = {}
    for e in r.evs("return"):
        v = e.value
        if v.op == "tup" and len(v.a) >= 4 and e.loops:
            cands.setdefault(v, e)
    rec_calls = [e for e in r.evs("call") if e.callee is mk("func", fq)]
    if not rec_calls:
        raise Undecided("no recursive call")
    for e in rec_calls:
        fa, sa, pa = (call_arg(e, ctx.p.fn(fq), names[k]) if names[k] else None for k in KEYS)
        if fa is None or sa is None or pa is None:
            ctx.unk(R, "BranchBound: descent", e.loc)
            continue
        if fa.op == "idx" and sa.op == "idx" and fa.a[0] is sa.a[0] and fa.a[1].op == "const" and sa.a[1].op == "const":
            kf, ks = cval(fa.a[1]), cval(sa.a[1])
            for v, ce in cands.items():
                if max(kf, ks) >= len(v.a):
                    ctx.unk(R, "BranchBound: candidate layout", ce.loc)
                    continue
                f12, s12 = v.a[kf], v.a[ks]
                try:
                    s, why = guard_status(ce.facts, {"flops": f12, "size": s12})
                except Wrong as w:
                    ctx.bad(R, "BranchBound: candidates are better than the best", ce.loc, str(w))
                    continue
                if s == "none":
                    ctx.bad(R, "BranchBound: candidates are better than the best", ce.loc, "candidates are not compared with the best record")
                else:
                    ctx.put(None if s is None else s == "strict", R, "BranchBound: candidates are better than the best", ce.loc, why)
                # cost and size accumulate
                P, S = r.params[names["flops"]], r.params[names["size"]]
                ok = f12.op == "add" and P in f12.a and len(f12.a) == 2
                ctx.put(ok or (False if f12 is P or not contains(f12, P) else None), R, "BranchBound: cost accumulates along the path", ce.loc,
                        "the candidate's cost is not the running cost plus the pair's cost: " + show(f12, 4))
                ok = is_call(s12, "builtins.max") and S in s12.a[1]
                ctx.put(ok or (False if s12 is S or not contains(s12, S) or is_call(s12, "builtins.min") or s12.op == "add" else None), R, "BranchBound: size is the largest so far", ce.loc,
                        "the candidate's size is not the maximum of the running size and the new term: " + show(s12, 4))
            if not cands:
                ctx.unk(R, "BranchBound: candidates are better than the best", e.loc)
        else:
            ctx.unk(R, "BranchBound: descent", e.loc, show(fa, 3))
    ret(ctx, R, "BranchBound", ctx.run("paths.BranchBound.__call__", public=True, opaque=SEARCH_OPAQUE))
    inits(ctx, R, "BranchBound", ctx.run("paths.BranchBound.__init__"))


def r_random(ctx):
    R = "best of the randomised search"
    fq = "path_random.RandomOptimizer.__call__"
    r = ctx.run(fq, public=True, opaque=SEARCH_OPAQUE)
    recs = judge(ctx, R, "RandomOptimizer", r, KEYS)
    ret(ctx, R, "RandomOptimizer", r)
    inits(ctx, R, "RandomOptimizer", ctx.run("path_random.RandomOptimizer.__init__"))
    for f, l, rec, evs in recs:
        if all(k in rec for k in KEYS):
            xs = [rec[k] for k in KEYS]
            if all(x.op == "idx" for x in xs):
                ctx.put(len({x.a[0] for x in xs}) == 1, R, "RandomOptimizer: all fields come from one trial", evs[0].loc, "")
                # layout against the trial function
                tr = "path_random._trial_greedy_ssa_path_and_cost"
                if ctx.has(tr):
                    rt = ctx.run(tr, opaque={"paths.ssa_greedy_optimize", "path_random.ssa_path_compute_cost"})
                    v = rt.eng.freeze(rt.ret, rt.state)
                    if v.op == "tup" and len(v.a) == 3:
                        role = []
                        for x in v.a:
                            if x.op == "idx" and is_call(x.a[0], "path_random.ssa_path_compute_cost") and x.a[1].op == "const":
                                role.append({0: "flops", 1: "size"}.get(cval(x.a[1])))
                            elif is_call(x, "paths.ssa_greedy_optimize"):
                                role.append("ssa_path")
                            else:
                                role.append(None)
                        for k in KEYS:
                            p = cval(rec[k].a[1])
                            got = role[p] if isinstance(p, int) and p < 3 else None
                            ctx.put(None if got is None else got == k, R, f"RandomOptimizer: trial result position of {k}", evs[0].loc, f"{got} of the trial is recorded as {k}")
                    else:
                        ctx.unk(R, "trial result", "", show(v, 4))
    # every trial is logged
    apps = [e for e in r.evs("mutate") if e.op == "append" and e.obj.op == "attr" and e.obj.a[1] in ("costs", "sizes")]
    by = {e.obj.a[1]: e for e in apps}
    if "costs" in by and "sizes" in by:
        c, s = by["costs"], by["sizes"]
        ctx.put(c.facts == s.facts, R, "RandomOptimizer: costs and sizes stay aligned", c.loc, "a trial can be added to one list only")
        for f, l, rec, evs in recs:
            if "flops" in rec and "size" in rec:
                ctx.put(c.args[0] is rec["flops"] and s.args[0] is rec["size"] or (None if c.args[0].op != "idx" else False), R, "RandomOptimizer: logged cost and size are the trial's", c.loc, "")
                ctx.put(set(c.facts) <= set(evs[0].facts) and len(c.facts) < len(evs[0].facts), R, "RandomOptimizer: every trial is logged", c.loc,
                        "a trial is logged under the same condition as an improvement")
    # nothing resets the record
    n = 0
    for m in ("path_random.RandomOptimizer.__call__", "paths.BranchBound.__call__"):
        rr = ctx.run(m, public=True, opaque=SEARCH_OPAQUE)
        for e in rr.evs("setattr"):
            if e.name in ("best", "costs", "sizes"):
                n += 1
                if e.value.op in ("dict", "lst"):
                    ctx.bad(R, f"{m}: the record survives repeated calls", e.loc, f"{e.name} is reset by the call")
                else:
                    ctx.unk(R, f"{m}: the record survives repeated calls", e.loc)
    if not n:
        ctx.ok(R, "the record survives repeated calls")


def r_dp(ctx):
    R = "best of the dynamic programming tables"
    fns = [f for f in ctx.p.fns if f.startswith("paths._dp_compare")]
    if not fns:
        raise Undecided("no pair evaluation functions")
    for fq in sorted(fns):
        r = ctx.run(fq, opaque={"helpers.compute_size_by_dict", "paths._dp_calc_legs"})
        st = [e for e in r.evs("mutate") if e.op == "setitem" and e.args[1].op == "tup" and len(e.args[1].a) == 3]
        if not st:
            ctx.unk(R, f"{fq}: table entry", "", "no table entry of three fields is written")
            continue
        for e in st:
            key, (legs, cost, con) = e.args[0], e.args[1].a
            tab = e.obj
            bad = None
            for known in (False, True):
                for rel in (-1, 0, 1):
                    def leaf(c, env):
                        if c is cmp("in", key, tab):
                            return known
                        if c.op == "cmp" and c.a[0] in ("lt", "eq"):
                            old = mk("idx", mk("idx", tab, key), const(1))
                            if c.a[1] is cost and c.a[2] is old:
                                return rel < 0 if c.a[0] == "lt" else rel == 0
                            if c.a[1] is old and c.a[2] is cost:
                                return rel > 0 if c.a[0] == "lt" else rel == 0
                        return None
                    vals = []
                    for f in e.facts:
                        if contains(f, tab):
                            vals.append(truth_of(f, {}, leaf))
                    got = all(vals)
                    want = (not known) or rel < 0
                    if not known and not got:
                        bad = "a first result for a set of tensors is not stored"
                    elif known and rel < 0 and not got:
                        bad = "a cheaper result does not replace the stored one"
                    elif known and rel > 0 and got:
                        bad = "a costlier result replaces the stored one"
                    elif known and rel == 0 and got:
                        bad = "an equally good result replaces the stored one"
            ctx.put(bad is None, R, f"{fq}: table entry replaced only when cheaper", e.loc, bad or "")


def check(ctx):
    ctx.rule("comparison of candidates", r_better)
    ctx.rule("best of the exhaustive search", r_optimal)
    ctx.rule("best of the branching search", r_branch)
    ctx.rule("best of the randomised search", r_random)
    ctx.rule("best of the dynamic programming tables", r_dp)
