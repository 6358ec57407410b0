"""C26: every search scores a step with the documented cost of that step."""
import ast
import re

from sa.engine import is_call, mcall
from sa.kit import Undecided, decide_set, fmt_env, member, numeval, numleaf, pick, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import NONE, TRUE, const, contains, cval, is_const, mk, subterms
from .c05 import gathered
from .c13 import targ, unesc
from .c14 import records
from .common import call_arg, gassign, recursive_nested, unmemo

DESC = ("Value analysis of the cost formulas: each formula is reduced to a term over the sizes of index sets (classified by membership tables), running totals and the number of terms, "
        "and compared with the documented formula at points that separate it from every other sum, product, maximum of the same quantities; running totals are followed through loops and recursion.")
SIZE = "helpers.compute_size_by_dict"


def is_size(t):
    return is_call(t, SIZE) and len(t.a[1]) + len(t.a[2]) >= 2


# ---------------------------------------------------------------- primitives
def r_primitives(ctx):
    R = "size and operation count"
    r = ctx.run(SIZE, public=True)
    P = list(r.params.values())
    t = unesc(r.eng.freeze(r.ret, r.state))
    loc = ctx.p.fn(SIZE).loc
    if t.op == "fold":
        ctx.put(True if t.a[0] == "*" else False, R, "the size is a product", loc, show(t, 4))
        ctx.put(True if is_const(t.a[1], 1) else False if t.a[1].op == "const" else None, R, "the size of no index is one", loc, show(t.a[1]))
        e = mk("elem", t.a[3], 0)
        ctx.put(True if t.a[2] is mk("idx", P[1], e) else False if t.a[2].op == "const" or t.a[2] is e else None, R, "the factors are the sizes of the indices", loc, show(t.a[2], 4))
        it = strip(t.a[3], "builtins.list", "builtins.tuple", "builtins.iter")
        ctx.put(True if it is P[0] and t.a[4] is TRUE else False if it is P[0] or it.op == "idx" or is_call(it, "builtins.set", "builtins.frozenset") else None, R, "every index counts", loc, show(t.a[3], 3) + " if " + show(t.a[4], 3))
    elif is_call(t, "math.prod") and len(t.a[1]) == 1 and not t.a[2] and t.a[1][0].op == "comp":
        c = t.a[1][0]
        ok = c.a[1] is mk("idx", P[1], mk("elem", c.a[2][0], 0)) and c.a[2][0] is P[0] and c.a[3] is TRUE
        ctx.put(True if ok else False if c.a[3] is not TRUE or c.a[0] in ("set",) else None, R, "the size is a product", loc, show(t, 5))
    else:
        ctx.unk(R, "the size is a product", loc, show(t, 5))
    fq = "helpers.flop_count"
    r = ctx.run(fq, public=True, opaque={SIZE})
    P = r.params
    t = unesc(r.eng.freeze(r.ret, r.state))
    ix, inner, n, sd = (P[k] for k in ("idx_contraction", "inner", "num_terms", "size_dictionary"))
    loc = ctx.p.fn(fq).loc
    formula(ctx, R, "operation count", loc, t, lambda x: targ(ctx, x, "indices") is ix and targ(ctx, x, "idx_dict") is sd, lambda x: x is inner, lambda x: x is n)


def formula(ctx, R, name, loc, t, whole, isinner, isn, ns=(1, 2, 3, 4, 7), inners=(False, True), fixed=None, either_ok=()):
    """t is (product of all sizes) * (max(1, n-1) + inner)"""
    for m in ns:
        for inn in inners:
            for s in (7, 11):
                def val(x):
                    if is_size(x):
                        if whole(x):
                            return s
                        raise Undecided("size of " + show(x, 4))
                    if isn(x):
                        return m
                    if isinner(x):
                        return int(inn)
                    return None

                def more(c, env):
                    return inn if isinner(c) else None
                try:
                    got = evaln(t, val, more)
                except Undecided as u:
                    ctx.unk(R, name, loc, str(u))
                    return
                want = s * (max(1, m - 1) + inn)
                if got != want:
                    ctx.bad(R, name, loc, f"{m} terms over {s} combinations of indices, {'with' if inn else 'without'} a sum: {got} instead of {want}: {show(t, 5)}")
                    return
    ctx.put(True, R, name, loc, show(t, 5))


def evaln(t, val, more=None):
    def val2(x):
        v = val(x)
        if v is not None:
            return v
        if x.op == "phi":
            return evaln(x.a[1] if truth_of(x.a[0], None, numleaf(val, more)) else x.a[2], val, more)
        if is_call(x, "builtins.bool", "builtins.int") and len(x.a[1]) == 1 and more is not None:
            try:
                return int(truth_of(x.a[1][0], None, numleaf(val, more)))
            except Undecided:
                return None
        if x.op == "bin" and x.a[0] == "**" and is_const(x.a[2], 1):
            return evaln(x.a[1], val, more)
        if is_call(x, "builtins.sum", "math.fsum") and len(x.a[1]) == 1 and x.a[1][0].op in ("tup", "lst"):
            return sum(evaln(y, val, more) for y in x.a[1][0].a)
        if x.op in ("and", "or", "not", "cmp") and more is not None:
            return int(truth_of(x, None, numleaf(val, more)))
        return None
    return numeval(t, val2)


def nonempty(c, env, atom):
    """truth of a set (or of the test that it is not empty) when it can only hold an index of the kind `env`"""
    if c.op in ("not", "and", "or", "phi"):
        return None
    if c.op == "cmp" and c.a[0] in ("lt", "eq"):
        ln = [x for x in c.a[1:] if is_call(x, "builtins.len")]
        if len(ln) == 1:
            try:
                n = int(member(ln[0].a[1][0], env, atom))
                a, b = (n if x is ln[0] else numeval(x, lambda y: None) for x in c.a[1:])
            except Undecided:
                return None
            return a < b if c.a[0] == "lt" else a == b
        return None
    if mcall(c, "isdisjoint", "issubset") is not None and len(c.a[1]) == 1:
        try:
            a, b = member(c.a[0].a[0], env, atom), member(c.a[1][0], env, atom)
        except Undecided:
            return None
        return not (a and b) if c.a[0].a[1] == "isdisjoint" else not a or b
    try:
        return member(c, env, atom)
    except Undecided:
        return None


def r_pair(ctx):
    R = "operation count of a pair"
    fq = "paths.calc_k12_flops"
    if not ctx.has(fq):
        raise Undecided("calc_k12_flops is gone")
    r = ctx.run(fq, opaque={SIZE})
    ps = r.params
    inputs, output, remaining, i, j, sd = (ps[n] for n in list(ps)[:6])
    ret = r.eng.freeze(r.ret, r.state)
    loc = ctx.p.fn(fq).loc
    if ret.op != "tup" or len(ret.a) != 2:
        raise Undecided("calc_k12_flops does not return a pair")
    cost = ret.a[1]

    def atom(t):
        if t.op == "idx" and t.a[0] is inputs and t.a[1] in (i, j):
            return "k1" if t.a[1] is i else "k2"
        if strip(t) is output:
            return "out"
        g = gathered(t, inputs, remaining, i, j)
        if g is not None:
            return lambda e: ("i" in g and e["k1"]) or ("j" in g and e["k2"]) or ("rest" in g and e["others"])
        return None
    sizes = [x for x in subterms(cost) if is_size(x)]
    for x in sizes:
        v, ce = decide_set(targ(ctx, x, "indices"), ["k1", "k2", "others", "out"], atom, lambda e: e["k1"] or e["k2"])
        ctx.put(v == "ok", R, "over all indices of both terms", loc, "" if v == "ok" else f"wrong for an index with {fmt_env(ce)}: {show(x, 5)}")
        s = targ(ctx, x, "idx_dict")
        ctx.put(True if s is sd else None, R, "with the sizes given", loc, show(s, 3))
    if not sizes:
        ctx.unk(R, "over all indices of both terms", loc, show(cost, 4))
        return
    # value with one kind of index present
    for k1, k2 in ((True, False), (False, True), (True, True)):
        for oth in (False, True):
            for out in (False, True):
                env = {"k1": k1, "k2": k2, "others": oth, "out": out}
                gone = not oth and not out

                def val(x):
                    return 7 if is_size(x) else None

                def more(c, e2):
                    return nonempty(c, env, atom)
                try:
                    got = evaln(cost, val, more)
                except Undecided as u:
                    ctx.unk(R, f"index with {fmt_env(env)}", loc, str(u))
                    continue
                want = {14} if gone and k1 and k2 else {7, 14} if gone else {7}
                ctx.put(got in want, R, f"index with {fmt_env(env)}", loc, f"7 combinations of indices cost {got} instead of {sorted(want)}: {show(cost, 5)}")


def r_oversize(ctx):
    R = "operation count of an oversized rest"
    fq = "paths._compute_oversize_flops"
    if not ctx.has(fq):
        raise Undecided("gone")
    r = ctx.run(fq, opaque={SIZE})
    ps = r.params
    inputs, remaining, output, sd = (ps[n] for n in list(ps)[:4])
    cost = r.eng.freeze(r.ret, r.state)
    loc = ctx.p.fn(fq).loc
    none = mk("param", "?", "?")

    def atom(t):
        if strip(t) is output:
            return "out"
        g = gathered(t, inputs, remaining, none, none)
        if g is not None:
            return "rem"
        return None
    sizes = [x for x in subterms(cost) if is_size(x)]
    if not sizes:
        raise Undecided("no size: " + show(cost, 4))
    for x in sizes:
        v, ce = decide_set(targ(ctx, x, "indices"), ["rem", "out"], atom, lambda e: e["rem"])
        ctx.put(v == "ok", R, "over all indices of the rest", loc, "" if v == "ok" else f"wrong for an index with {fmt_env(ce)}: {show(x, 5)}")
    for n in (2, 3, 5):
        for out in (False, True):
            env = {"rem": True, "out": out}

            def val(x):
                if is_size(x):
                    return 7
                if is_call(x, "builtins.len") and len(x.a[1]) == 1 and x.a[1][0] is remaining:
                    return n
                if is_call(x, "builtins.len") and len(x.a[1]) == 1 and x.a[1][0] is inputs:
                    return n + 4
                return None
            try:
                got = evaln(cost, val, lambda c, e2: nonempty(c, env, atom))
            except Undecided as u:
                ctx.unk(R, f"{n} terms, index with {fmt_env(env)}", loc, str(u))
                continue
            want = 7 * (n - 1 + (not out))
            ctx.put(got == want, R, f"{n} terms, index with {fmt_env(env)}", loc, f"7 combinations of indices cost {got} instead of {want}: {show(cost, 5)}")


# ---------------------------------------------------------------- running totals
def is_pair(t, k):
    return t.op == "idx" and is_const(t.a[1], k) and is_call(t.a[0], "paths.calc_k12_flops")


def steps(t, flops=None, size=None, rest=None):
    """values of running totals"""
    def val(x):
        if flops is not None and x is flops[0]:
            return flops[1]
        if size is not None and x is size[0]:
            return size[1]
        if is_pair(x, 1):
            return 7
        if is_size(x) and is_pair(x.a[1][0], 0):
            return 5
        if is_call(x, "paths._compute_oversize_flops"):
            return 13
        if is_size(x) and (x.a[1][0].op == "idx" and not is_pair(x.a[1][0], 0) or not contains(x, lambda s: is_call(s, "paths.calc_k12_flops"))):
            return 17
        return None
    return evaln(t, val)


def total(ctx, R, name, loc, t, pts):
    """pts: list of (kwargs of steps, accepted values)"""
    t = unmemo(t)
    for kws, want in pts:
        try:
            got = steps(t, **kws)
        except Undecided as u:
            ctx.unk(R, name, loc, str(u))
            return
        if got != want:
            ctx.bad(R, name, loc, f"{got} instead of {want} for {({k: v[1] for k, v in kws.items()})}, a pair of cost 7 and a result of size 5: {show(t, 5)}")
            return
    ctx.put(True, R, name, loc, show(t, 4))


OPQ = frozenset({"paths.calc_k12_flops", SIZE, "paths._compute_oversize_flops", "paths.ssa_to_linear", "helpers.flop_count"})


def r_searches(ctx):
    for outer, R, keys in (("paths.optimal", "cost in the exhaustive search", ("flops",)), ("paths.BranchBound.__call__", "cost in the branching search", ("flops", "size"))):
        if outer not in ctx.p.fns:
            raise AnalysisBroken(outer + " is missing")
        try:
            one_search(ctx, outer, R, keys)
        except Undecided as u:
            ctx.unk(R, outer, ctx.p.fn(outer).loc, str(u))


def one_search(ctx, outer, R, keys):
    fq = recursive_nested(ctx, outer)
    r = ctx.run(fq, opaque=OPQ)
    f = ctx.p.fn(fq)
    leaf = {}
    sets = [(e, cval(e.args[0])) for e in r.evs("mutate") if e.op == "setitem" and e.args[0].op == "const"]
    for e, k in sets:
        if k in keys and not e.loops and e.args[1] in set(r.params.values()):
            leaf[k] = e.args[1]
    if any(k not in leaf for k in keys):
        raise Undecided("no running total recorded at the end of a path")
    names = {k: next(n for n, t in r.params.items() if t is leaf[k]) for k in keys}
    FL = leaf["flops"]
    SZ = leaf.get("size")
    pts_f = [({"flops": (FL, v)}, v + 7) for v in (0, 100)]
    pts_s = [({"size": (SZ, v)}, max(v, 5)) for v in (0, 3, 30)]
    pts_o = [({"flops": (FL, v)}, v + 13) for v in (0, 100)]
    pts_os = [({"size": (SZ, v)}, v) for v in (0, 3, 30)]
    # oversize records
    for e, k in sets:
        if k in keys and e.loops:
            v = e.args[1]
            if k == "flops":
                total(ctx, R, "recorded cost of an oversized rest", e.loc, v, pts_o)
            elif SZ is not None and v is SZ:
                ctx.put(True, R, "recorded size before an oversized rest", e.loc, "")
    cands = [e for e in r.evs("return") if e.value.op == "tup" and len(e.value.a) >= 4 and e.loops]
    rec = [e for e in r.evs("call") if e.callee is mk("func", fq)]
    if not rec:
        raise Undecided("no recursion")
    for e in rec:
        for k in keys:
            a = call_arg(e, f, names[k])
            if a is None:
                ctx.unk(R, f"{k} handed on", e.loc)
                continue
            pts = pts_f if k == "flops" else pts_s
            if a.op == "idx" and a.a[1].op == "const" and cands and isinstance(cval(a.a[1]), int) and all(cval(a.a[1]) < len(c.value.a) for c in cands):
                for c in cands:
                    total(ctx, R, f"{k} handed on", c.loc, c.value.a[cval(a.a[1])], pts)
            else:
                total(ctx, R, f"{k} handed on", e.loc, a, pts)
    # start
    r0 = ctx.run(outer, public=True, opaque=OPQ | {fq})
    for e in r0.evs("call"):
        if e.callee is mk("func", fq) and e.fq == outer:
            for k in keys:
                a = call_arg(e, f, names[k])
                ctx.put(None if a is None or a.op != "const" else cval(a) == 0, R, f"{k} starts from nothing", e.loc, "starts from " + show(a, 3) if a is not None else "")
    # score of a candidate
    if "size" in keys:
        for e in r.evs("call"):
            if e.callee.op == "attr" and e.callee.a[1] == "cost_fn" and len(e.args) == 6:
                score(ctx, R, e, [unmemo(x) for x in e.args], r.params)


def sized(t):
    """the index set whose size t is, or None"""
    if is_size(t):
        return t.a[1][0]
    if t.op == "idx":
        return t.a[1]
    return None


def score(ctx, R, e, A, params):
    s12, s1, s2, k12, k1, k2 = A
    for nm, s, k, others in (("result", s12, k12, (k1, k2)), ("first operand", s1, k1, (k12, k2)), ("second operand", s2, k2, (k12, k1))):
        x = sized(s)
        ctx.put(True if x is k else False if x is not None and x in others or s.op == "const" else None, R, f"score: size of the {nm}", e.loc, "size of " + show(s, 4) + " for " + show(k, 4))
    ctx.put(False if k1 is k2 else True, R, "score: two operands", e.loc, show(k1, 4))


# ---------------------------------------------------------------- greedy
def r_score(ctx):
    R = "greedy score"
    fq = "paths.cost_memory_removed"
    fns = {}
    for m in ctx.p.mods.values():
        if m.short == "paths":
            g = gassign(ctx, mk("gvar", "paths", "_COST_FNS"))
            if isinstance(g, ast.Dict):
                for k, v in zip(g.keys, g.values):
                    t = ctx.p.lookup_expr(m, v)
                    if isinstance(k, ast.Constant) and t is not None and t.op == "func":
                        fns[k.value] = t.a[0]
    if not fns:
        raise Undecided("the table of cost functions was not found")
    for name, jit in (("memory-removed", False), ("memory-removed-jitter", True)):
        if name not in fns:
            ctx.bad(R, f"{name} is known", "opt_einsum/paths.py", "no entry in the table of cost functions")
            continue
        f = ctx.p.fn(fns[name])
        r = ctx.run(f.fq)
        P = list(r.params.values())
        t = r.eng.freeze(r.ret, r.state)
        for a, b, c in ((100, 7, 11), (5, 7, 11), (1, 1000, 1)):
            for j in (1.0, 1.5):
                def val(x):
                    for p, v in zip(P, (a, b, c)):
                        if x is p:
                            return v
                    if x.op == "call" and x.a[0].op in ("ext", "func", "attr") and any(is_call(x, "random." + q) for q in ("gauss", "normalvariate", "uniform", "lognormvariate")):
                        return j
                    return None
                try:
                    got = evaln(t, val)
                except Undecided as u:
                    ctx.unk(R, name, f.loc, str(u))
                    break
                want = (a - b - c) * (j if jit else 1)
                ctx.put(got == want, R, f"{name} is the memory added less the memory freed", f.loc, f"result {a}, operands {b} and {c}" + (f", jitter {j}" if jit else "") + f": {got} instead of {want}")
        if jit:
            for x in subterms(t):
                if is_call(x, "random.gauss", "random.normalvariate") and len(x.a[1]) == 2:
                    ctx.put(None if x.a[1][0].op != "const" else cval(x.a[1][0]) == 1, R, "the jitter has mean one", f.loc, show(x))
    # candidates
    fq = "paths._get_candidate"
    if ctx.has(fq):
        r = ctx.run(fq, opaque={SIZE})
        for e in r.evs("call"):
            if e.fq == fq and e.callee.op == "param" and len(e.args) == 6:
                score(ctx, R, e, list(e.args), r.params)
                ctx.put(None if not is_size(e.args[0]) else True if targ(ctx, e.args[0], "idx_dict") in set(r.params.values()) else None, R, "score: sizes", e.loc, show(e.args[0], 3))
        t = r.eng.freeze(r.ret, r.state)
        # the score leads the queue entry
        if t.op == "tup" and t.a:
            h = t.a[0].a[0] if t.a[0].op == "tup" and t.a[0].a else t.a[0]
            isc = h.op == "call" and h.a[0].op == "param"
            ctx.put(True if isc else False if h.op in ("neg", "const", "param") or h.op == "idx" and h.a[0].op == "param" else None, R, "candidates are ordered by score", ctx.p.fn(fq).loc, show(h, 4))
    # footprints
    fq = "paths.ssa_greedy_optimize"
    r = ctx.run(fq, public=True, opaque={SIZE, "paths._get_candidate", "paths._push_candidate", "paths._update_ref_counts"})
    n = 0
    for e in r.evs("call"):
        if is_call(e.term, "paths._push_candidate", "paths._get_candidate"):
            try:
                fp = targ(ctx, e.term, "footprints")
            except (Undecided, ValueError):
                ctx.unk(R, "footprints", e.loc)
                continue
            n += 1
            tab(ctx, R, r, e, fp)
    if not n:
        raise Undecided("no candidate is pushed")


def tab(ctx, R, r, e, t, seen=None):
    """every entry of a table is the size of its key"""
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    nm = "footprints are sizes"
    if t.op in ("esc", "frozen"):
        tab(ctx, R, r, e, t.a[0], seen)
    elif t.op == "comp" and t.a[0] == "dict" and t.a[1].op == "tup":
        k, v = t.a[1].a
        ctx.put(True if sized(v) is k and is_size(v) else False if is_size(v) or v.op == "const" else None, R, nm, e.loc, show(t.a[1], 4))
    elif t.op == "setitem":
        k, v = t.a[1], t.a[2]
        ctx.put(True if sized(v) is k and is_size(v) else False if is_size(v) or v.op == "const" else None, R, nm, e.loc, show(v, 4) + " for " + show(k, 4))
        tab(ctx, R, r, e, t.a[0], seen)
    elif t.op == "out":
        tab(ctx, R, r, e, t.a[2], seen)
    elif t.op == "phi":
        tab(ctx, R, r, e, t.a[1], seen)
        tab(ctx, R, r, e, t.a[2], seen)
    elif t.op == "mu" or t in r.eng.muinfo:
        for lp in r.eng.loops.values():
            if t in lp.init:
                tab(ctx, R, r, e, lp.init[t], seen)
                tab(ctx, R, r, e, lp.step[t], seen)
    elif t.op == "dict" and not t.a:
        pass
    else:
        ctx.unk(R, nm, e.loc, show(t, 4))


# ---------------------------------------------------------------- random trials
def r_trial(ctx):
    R = "recorded cost of a trial"
    fq = "path_random.ssa_path_compute_cost"
    if not ctx.has(fq):
        raise Undecided("gone")
    r = ctx.run(fq, opaque=OPQ)
    ret = unesc(r.eng.freeze(r.ret, r.state))
    loc = ctx.p.fn(fq).loc
    if ret.op != "tup" or len(ret.a) != 2:
        raise Undecided("no pair of totals: " + show(ret, 4))
    P = r.params
    for nm, t, key in (("cost", ret.a[0], "flops"), ("size", ret.a[1], "size")):
        t = unesc(t)
        fld = ("builtins.max",) if key == "size" else ("builtins.sum", "+")
        if t.op == "out":
            lp = r.eng.loops.get(t.a[0])
            m = next((m for m, s in lp.step.items() if s is t.a[2]), None)
            if m is None:
                ctx.unk(R, f"{nm} over the steps", loc, show(t, 4))
                continue
            ini = lp.init[m]
            ctx.put(None if ini.op != "const" else cval(ini) in ((0,) if key == "flops" else (0, 1)), R, f"{nm} starts from nothing", loc, show(ini))
            if key == "flops":
                total(ctx, R, f"{nm} over the steps", loc, t.a[2], [({"flops": (m, v)}, v + 7) for v in (0, 100)])
            else:
                total(ctx, R, f"{nm} over the steps", loc, t.a[2], [({"size": (m, v)}, max(v, 5)) for v in (0, 3, 30)])
            it = strip(lp.iter, "builtins.list", "builtins.tuple") if lp.iter is not None and not isinstance(lp.iter, str) else None
            sp = next(iter(P.values()))
            ctx.put(True if it is sp else False if it is not None and it.op == "idx" and it.a[0] is sp else None, R, f"{nm}: every step counts", loc, show(lp.iter, 3) if it is not None else "")
        elif t.op == "fold":
            v = t.a[2]
            ctx.put(None if t.a[0] not in fld else t.a[4] is TRUE and is_const(t.a[1], 0), R, f"{nm} over the steps", loc, show(t, 4))
        else:
            ctx.unk(R, f"{nm} over the steps", loc, show(t, 4))
    fq = "path_random._trial_greedy_ssa_path_and_cost"
    if not ctx.has(fq):
        return
    r = ctx.run(fq, opaque={"paths.ssa_greedy_optimize", "path_random.ssa_path_compute_cost"})
    ret = unesc(r.eng.freeze(r.ret, r.state))
    loc = ctx.p.fn(fq).loc
    if ret.op != "tup" or len(ret.a) != 3:
        raise Undecided("trial result: " + show(ret, 3))
    path, cost, size = ret.a
    for nm, t, k in (("cost", cost, 0), ("size", size, 1)):
        if t.op == "idx" and is_call(t.a[0], "path_random.ssa_path_compute_cost"):
            ctx.put(is_const(t.a[1], k), R, f"{nm} of a trial", loc, show(t, 3))
            c = t.a[0]
            ctx.put(targ(ctx, c, "ssa_path") is path or None, R, f"{nm} is that of the trial's path", loc, show(c, 3))
            for q in ("inputs", "output", "size_dict"):
                a = targ(ctx, c, q)
                ctx.put(True if a is r.params.get(q) else None, R, f"{nm}: {q}", loc, show(a, 3))
        else:
            ctx.unk(R, f"{nm} of a trial", loc, show(t, 3))


# ---------------------------------------------------------------- dynamic programming
def r_dp(ctx):
    R = "objectives of the dynamic programming search"
    fq = "paths._parse_minimize"
    if not ctx.has(fq):
        raise Undecided("gone")
    r = ctx.run(fq)
    loc = ctx.p.fn(fq).loc
    P = next(iter(r.params.values()))
    ret = r.eng.freeze(r.ret, r.state)
    pat = None
    for x in subterms(ret):
        if mcall(x, "fullmatch") is not None and x.a[0].a[0].op == "gvar":
            v = gassign(ctx, x.a[0].a[0])
            if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.Constant):
                pat = v.args[0].value
    for name, want in (("flops", "flops"), ("size", "size"), ("write", "write"), ("combo", "combo"), ("limit", "limit"), ("combo-256", "combo"), ("limit-7", "limit")):
        groups = None
        if pat is not None:
            m = re.compile(pat).fullmatch(name)
            groups = m.groups() if m else None
        base, fac = name.partition("-")[::2]

        def grp(t):
            if t.op == "idx" and t.a[1].op == "const" and mcall(t.a[0], "groups") is not None:
                return cval(t.a[1])
            if mcall(t, "group") is not None and len(t.a[1]) == 1 and t.a[1][0].op == "const":
                return cval(t.a[1][0]) - 1
            return None

        def leaf(c, env):
            if c.op == "cmp" and c.a[0] == "eq":
                for a, b in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                    if b.op == "const" and isinstance(cval(b), str):
                        if a is P:
                            return cval(b) == name
                        if grp(a) is not None and groups is not None:
                            return groups[grp(a)] == cval(b)
            if is_call(c, "builtins.callable"):
                return False
            if c.op == "isinstance" and c.a[0] is P and c.a[1].op == "ext" and c.a[1].a[0] == "builtins.str":
                return True
            if c.op == "cmp" and c.a[0] == "is" and c.a[2] is NONE and mcall(c.a[1], "fullmatch") is not None and pat is not None:
                return groups is None
            if mcall(c, "fullmatch") is not None and pat is not None:
                return groups is not None
            if grp(c) is not None and groups is not None:
                return bool(groups[grp(c)])
            if c.op == "cmp" and c.a[0] == "in" and c.a[1] is P and c.a[2].op in ("tup", "lst", "set", "dict"):
                xs = [x[0] if c.a[2].op == "dict" else x for x in c.a[2].a]
                if all(x.op == "const" for x in xs):
                    return name in {cval(x) for x in xs}
            return None
        try:
            t = pick(ret, leaf)
            if t.op == "tup" and len(t.a) == 2:
                fn = pick(t.a[0], leaf)
            else:
                raise Undecided(show(t, 3))
            kws = {}
            if is_call(fn, "functools.partial"):
                kws = {k: pick(v, leaf) for k, v in fn.a[2]}
                if len(fn.a[1]) != 1:
                    raise Undecided(show(fn, 3))
                fn = fn.a[1][0]
            if fn.op != "func":
                raise Undecided("function of " + name + ": " + show(fn, 3))
            dp_one(ctx, R, name, base, fac, fn.a[0], kws, grp, groups)
        except Undecided as u:
            ctx.unk(R, f"minimize={name!r}", loc, str(u))
    # the cost of nothing
    fq = "paths.DynamicProgramming.__call__"
    r = ctx.run(fq, public=True, opaque=OPQ | {fq2 for fq2 in ("paths._parse_minimize", "paths._find_disconnected_subgraphs", "paths._dp_parse_out_single_term_ops", "paths._bitmap_select", "paths._tree_to_sequence")})
    for e in r.evs("mutate"):
        if e.fq == fq and e.op == "setitem" and is_const(e.args[0], 1) and e.args[1].op == "comp" and e.args[1].a[0] == "dict":
            v = e.args[1].a[1].a[1]
            if v.op == "tup" and len(v.a) == 3:
                ctx.put(None if v.a[1].op != "const" else cval(v.a[1]) == 0, R, "a single tensor costs nothing", e.loc, show(v.a[1]))


def dp_one(ctx, R, name, base, fac, fq, kws, grp, groups):
    f = ctx.p.fn(fq)
    r = ctx.run(fq, opaque={SIZE, "paths._dp_calc_legs"})
    P = r.params
    factor = combine = None
    if base in ("combo", "limit"):
        factor = kws.get("factor", P.get("factor"))
        combine = kws.get("combine", P.get("combine"))
        # factor
        d = f.node.args
        fv = strip(factor, "builtins.float", "builtins.int") if factor is not None else None
        if "factor" not in kws:
            got = None
        elif fac:
            got = True if grp(fv) == 1 else False if fv.op in ("const", "gvar") else None
        else:
            g = gassign(ctx, fv) if fv.op == "gvar" else None
            v = cval(fv) if fv.op == "const" else g.value if isinstance(g, ast.Constant) else None
            got = None if v is None else v == 64
        ctx.put(got, R, f"{name}: factor", f.loc, show(factor, 3) if factor is not None else "")
        cn = combine.a[0] if combine is not None and combine.op == "ext" else None
        want = "builtins.sum" if base == "combo" else "builtins.max"
        ctx.put(None if cn not in ("builtins.sum", "builtins.max", "builtins.min") else cn == want, R, f"{name}: combination", f.loc, show(combine, 2) if combine is not None else "")
        combine = cn if cn in ("builtins.sum", "builtins.max") else want
    st = [e for e in r.evs("mutate") if e.op == "setitem" and e.args[1].op == "tup" and len(e.args[1].a) == 3]
    if not st:
        raise Undecided("no table entry")
    need = ("cost1", "cost2", "i1_union_i2", "size_dict")
    if any(n not in P for n in need):
        raise Undecided("parameters of " + fq)
    for e in st:
        cost = e.args[1].a[1]
        legs = e.args[1].a[0]
        for c1, c2, u, m in ((3, 10, 100, 50), (200, 10, 100, 50), (3, 400, 100, 50), (0, 0, 60, 50), (3, 10, 51, 50)):
            def val(x):
                if x is P["cost1"]:
                    return c1
                if x is P["cost2"]:
                    return c2
                if is_size(x):
                    a = targ(ctx, x, "indices")
                    if a is P["i1_union_i2"]:
                        return u
                    if a is legs or is_call(a, "paths._dp_calc_legs"):
                        return m
                if "factor" in P and x is P["factor"]:
                    return 3
                if x.op == "call" and "combine" in P and x.a[0] is P["combine"] and len(x.a[1]) == 1 and x.a[1][0].op in ("tup", "lst"):
                    vs = [evaln(y, val) for y in x.a[1][0].a]
                    return sum(vs) if combine == "builtins.sum" else max(vs)
                return None
            want = {"flops": c1 + c2 + u, "size": max(c1, c2, m), "write": c1 + c2 + m, "combo": c1 + c2 + u + 3 * m, "limit": c1 + c2 + max(u, 3 * m)}[base]
            got = evaln(cost, val)
            ctx.put(got == want, R, f"{name}: cost of a pair", e.loc, f"parts of cost {c1} and {c2}, {u} combinations of indices, result of size {m}" + (", factor 3" if "factor" in P else "") + f": {got} instead of {want}: {show(cost, 5)}")


def check(ctx):
    ctx.rule("size and operation count", r_primitives)
    ctx.rule("operation count of a pair", r_pair)
    ctx.rule("operation count of an oversized rest", r_oversize)
    ctx.rule("running totals of the searches", r_searches)
    ctx.rule("greedy score", r_score)
    ctx.rule("recorded cost of a trial", r_trial)
    ctx.rule("objectives of the dynamic programming search", r_dp)
