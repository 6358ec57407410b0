"""C27: the searches that promise the best of a space overlook nothing in it."""
from sa.engine import is_call, mcall
from sa.kit import Undecided, numleaf, numeval, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, const, contains, cval, is_const, mk, subterms
from .c13 import targ
from .c26 import OPQ, SIZE, evaln, is_pair, is_size
from .common import Fails, call_arg, pointeval, recursive_nested, unmemo

DESC = ("Completeness of the enumeration, decided locally: the pairs enumerated, the conditions under which a pair is not followed (evaluated at points where it may still lead to a better path), "
        "early exits of the enumerating loops, and the conditions under which a result is stored are read from the source; with additive non-negative costs (C26) and coherent records (C14) they imply that nothing better is overlooked.")
INF = float("inf")


def all_pairs(ctx, R, name, loc, it, rem):
    """the iterable yields every unordered pair of `rem`"""
    x = strip(it, "builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted")
    if is_call(x, "itertools.combinations", "itertools.permutations") and len(x.a[1]) == 2:
        a, k = x.a[1]
        a = strip(a, "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set", "builtins.frozenset")
        sub = a.op == "idx" and a.a[1].op == "slice" or is_call(a, "itertools.islice")
        ctx.put(True if a is rem and is_const(k, 2) else False if sub or k.op == "const" and cval(k) != 2 else None, R, name, loc, show(it, 4))
    elif is_call(x, "builtins.zip", "itertools.pairwise", "itertools.islice") or x.op == "idx" and x.a[1].op == "slice":
        ctx.bad(R, name, loc, "not all pairs are enumerated: " + show(it, 4))
    else:
        ctx.unk(R, name, loc, show(it, 4))


def getmem(facts):
    for f in facts:
        for x in subterms(f):
            if x.op == "cmp" and x.a[0] == "in" and x.a[2].op == "gvar" and "UNLIM" in x.a[2].a[1].upper():
                return x
    return None


def holds(ctx, R, name, loc, facts, points, wants, describe):
    """every fact must be true at each point"""
    for pt in points:
        for f in facts:
            try:
                v = truth_of(f, None, pt[1])
            except Undecided as u:
                ctx.unk(R, name, loc, f"{u}")
                return
            if not v:
                ctx.bad(R, name, loc, f"{describe} is not followed {pt[0]}: {show(f, 5)}")
                return
    ctx.put(True, R, name, loc, "")


# ---------------------------------------------------------------- exhaustive
def r_optimal(ctx):
    R = "exhaustive search"
    outer = "paths.optimal"
    fq = recursive_nested(ctx, outer)
    r = ctx.run(fq, opaque=OPQ)
    f = ctx.p.fn(fq)
    rec = [e for e in r.evs("call") if e.callee is mk("func", fq)]
    if not rec:
        raise Undecided("no recursion")
    P = r.params
    rem = P.get("remaining")
    fl = next((e.args[1] for e in r.evs("mutate") if e.op == "setitem" and is_const(e.args[0], "flops") and e.args[1] in set(P.values())), None)
    if rem is None or fl is None:
        raise Undecided("parameters of the recursion")
    for e in rec:
        if len(e.loops) != 1:
            ctx.unk(R, "every pair is tried", e.loc, "nested loops")
        else:
            all_pairs(ctx, R, "every pair is tried", e.loc, e.loops[0][1], rem)
            for x in r.eng.loops[e.loops[0][0]].exits:
                early(ctx, R, e, x, fl, rem)
        follow(ctx, R, "a pair is given up only for cost or memory", e, fl, rem)
    # at the end of a path
    for e in r.evs("mutate"):
        if e.op == "setitem" and e.args[1] is fl:
            n = [x for x in e.facts]
            for k in (1, 2):
                def leaf(c, env):
                    return None

                def val(x):
                    if is_call(x, "builtins.len") and x.a[1][0] is rem:
                        return k
                    if x is fl:
                        return 5
                    if x.op == "idx" and is_const(x.a[1], "flops"):
                        return 9
                    return None
                try:
                    v = all(truth_of(x, None, numleaf(val)) for x in n)
                except Undecided as u:
                    ctx.unk(R, "a finished path is recorded", e.loc, str(u))
                    break
                ctx.put(v == (k == 1), R, "a finished path is recorded", e.loc, f"with {k} terms left the path is {'recorded' if v else 'dropped'}")


def early(ctx, R, e, x, fl, rem):
    """exits of the enumerating loop: allowed only when nothing can improve"""
    if x is FALSE:
        ctx.put(True, R, "the enumeration runs to its end", e.loc, "")
        return
    x = unmemo(x)
    mem = getmem([x])
    res = []
    try:
        for flops, f12, best in ((0, 1, 2), (998, 1, 1000), (500, 600, 1000), (0, 7, INF)):
            for lim in (None, 4, 5, 9):
                def extra(y):
                    return 13 if is_call(y, "paths._compute_oversize_flops") else None
                res.append(truth_of(x, None, numpoint(fl, rem, flops, f12, best, mem, lim=lim, extra=extra)))
    except Undecided as u:
        ctx.unk(R, "the enumeration runs to its end", e.loc, str(u))
        return
    ctx.put(False if any(res) else None, R, "the enumeration runs to its end", e.loc, "pairs after this one are not tried when " + show(x, 4))


def numpoint(fl, rem, flops, f12, best, mem, lim=None, size=5, extra=None):
    def val(x):
        if extra is not None:
            v = extra(x)
            if v is not None:
                return v
        if x is fl:
            return flops
        if is_pair(x, 1):
            return f12
        if x.op == "idx" and is_const(x.a[1], "flops"):
            return best
        if is_size(x):
            return size
        if mem is not None and lim is not None and x is mem.a[1]:
            return lim
        if is_call(x, "builtins.len") and len(x.a[1]) == 1 and x.a[1][0] is rem:
            return 4
        return None

    def more(c, env):
        if mem is not None and c is mem:
            return lim is None
        if c.op == "not" or c.op in ("and", "or"):
            return None
        return None
    return numleaf(val, more)


def follow(ctx, R, name, e, fl, rem):
    facts = [unmemo(f) for f in e.facts]
    mem = getmem(facts)
    pts = []
    for flops, f12, best in ((0, 1, 2), (0, 999, 1000), (998, 1, 1000), (0, 7, INF), (500, 499, 1000), (3, 10 ** 9, INF), (10 ** 6, 1, INF)):
        d = f"(cost so far {flops}, pair {f12}, best {best}"
        pts.append((d + ", no limit)", numpoint(fl, rem, flops, f12, best, mem)))
        pts.append((d + ", result of 5, limit 5)", numpoint(fl, rem, flops, f12, best, mem, lim=5)))
        pts.append((d + ", result of 5, limit 9)", numpoint(fl, rem, flops, f12, best, mem, lim=9)))
    holds(ctx, R, name, e.loc, facts, pts, None, "a pair that may lead to a better path")


# ---------------------------------------------------------------- branching
def r_branch(ctx):
    R = "branching search"
    outer = "paths.BranchBound.__call__"
    fq = recursive_nested(ctx, outer)
    r = ctx.run(fq, opaque=OPQ)
    P = r.params
    rem = P.get("remaining")
    fl = next((e.args[1] for e in r.evs("mutate") if e.op == "setitem" and is_const(e.args[0], "flops") and e.args[1] in set(P.values())), None)
    if rem is None or fl is None:
        raise Undecided("parameters of the recursion")
    push = [e for e in r.evs("call") if e.callee.op == "ext" and e.callee.a[0] == "heapq.heappush"]
    push += [e for e in r.evs("mutate") if e.op == "append" and e.loops and e.args and e.args[0].op in ("tup", "phi") and e.fq == fq]
    seen_inner = False
    for e in push:
        if len(e.loops) != 1:
            ctx.unk(R, "candidates", e.loc, "nested loops")
            continue
        all_pairs(ctx, R, "every pair is a candidate", e.loc, e.loops[0][1], rem)
        lid = e.loops[0][0]
        facts = []
        for f in e.facts:
            f = unmemo(f)
            if f.op == "not" and f.a[0].op == "any" or contains(f, lambda s: s.op == "out"):
                continue        # concerns the loop before (no connected candidate)
            facts.append(f)
        mem = getmem(facts)
        for bp in (INF, 200, 107, 50, 30, 26, 10):
            for lim in (None, 5, 9):
                def extra(x, bp=bp):
                    if x.op == "attr" and x.a[1] == "cutoff_flops_factor":
                        return 4
                    if x.op == "idx" and is_call(x.a[1], "builtins.len"):
                        return bp
                    return None
                base = numpoint(fl, rem, 100, 7, 1000, mem, lim=lim, extra=extra)

                def leaf(c, env, base=base):
                    if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "better":
                        return True
                    if shared(c, P) is not None:
                        return True
                    return base(c, env)
                try:
                    v = all(truth_of(f, None, leaf) for f in facts)
                except Undecided as u:
                    ctx.unk(R, "a candidate is dropped only for cost, cut-off or memory", e.loc, str(u))
                    break
                want = 107 <= 4 * bp
                if v != want:
                    ctx.bad(R, "a candidate is dropped only for cost, cut-off or memory", e.loc, f"running cost 107, best at this depth {bp}, factor 4, " + (f"limit {lim}, result 5" if lim else "no limit") + f": {'kept' if v else 'dropped'}")
                    break
            else:
                continue
            break
        else:
            ctx.put(True, R, "a candidate is dropped only for cost, cut-off or memory", e.loc, "")
    if not push:
        ctx.unk(R, "candidates", ctx.p.fn(fq).loc, "no queue of candidates")
    # descent
    rec = [e for e in r.evs("call") if e.callee is mk("func", fq)]
    for e in rec:
        if len(e.loops) != 1:
            ctx.unk(R, "branches explored", e.loc)
            continue
        lp = r.eng.loops[e.loops[0][0]]
        bi = [m for m, s in lp.step.items() if s.op == "add" and m in s.a and any(is_const(x, 1) for x in s.a) and len(s.a) == 2 and is_const(lp.init[m], 0)]
        nbs = {x for x in subterms(mk("tup", *e.facts)) if x.op == "attr" and x.a[1] == "nbranch"}
        facts = [f for f in e.facts if any(contains(f, m) for m in lp.step) or any(contains(f, x) for x in nbs)]
        queue = set(x for x in lp.step if x not in bi)
        if not nbs or not bi:
            ctx.unk(R, "branches explored", e.loc, "no counter")
            continue
        for nb in (None, 1, 2, 5):
            for k in range(7):
                def val(x):
                    if x in bi:
                        return k
                    if x in nbs and nb is not None:
                        return nb
                    return None

                def more(c, env):
                    if c.op == "cmp" and c.a[0] == "is" and c.a[1] in nbs:
                        return nb is None
                    if c in queue:
                        return True
                    if c in nbs:
                        return nb is not None
                    if is_call(c, "builtins.len") and c.a[1][0] in queue:
                        return True
                    return None
                try:
                    v = all(truth_of(f, None, numleaf(val, more)) for f in facts)
                except Undecided as u:
                    ctx.unk(R, "branches explored", e.loc, str(u))
                    break
                want = nb is None or k < nb
                if v != want:
                    ctx.bad(R, "branches explored", e.loc, f"nbranch={nb}: branch number {k + 1} is {'explored' if v else 'skipped'}")
                    break
            else:
                continue
            break
        else:
            ctx.put(True, R, "branches explored", e.loc, "")
        for x in lp.exits:
            ctx.put(True if x is FALSE else None, R, "the exploration runs to its end", e.loc, show(x, 4))


def shared(c, P):
    """c says that two operands share an index"""
    x = strip(c, "builtins.bool")
    if x.op in ("inter", "bin", "and_set", "meet") or x.op == "isect":
        pass
    ins = P.get("inputs")
    if ins is None:
        return None
    ops = [y for y in subterms(x) if y.op == "idx" and y.a[0] is ins]
    if x.op not in ("cmp", "and", "or", "not", "call", "phi", "any") and len(set(ops)) == 2 and all(y.op != "mu" for y in subterms(x) if y.op == "mu"):
        return True
    return None


# ---------------------------------------------------------------- dynamic programming
DPO = OPQ | {"paths._parse_minimize", "paths._find_disconnected_subgraphs", "paths._dp_parse_out_single_term_ops", "paths._bitmap_select", "paths._tree_to_sequence"}


def rng(x):
    """(start, stop) terms of a range"""
    if is_call(x, "builtins.range") and not x.a[2]:
        if len(x.a[1]) == 2:
            return x.a[1]
        if len(x.a[1]) == 1:
            return const(0), x.a[1][0]
    return None


def r_dp(ctx):
    R = "dynamic programming"
    fq = "paths.DynamicProgramming.__call__"
    r = ctx.run(fq, public=True, opaque=DPO)
    calls = [e for e in r.evs("call") if e.callee.op == "idx" and is_call(e.callee.a[0], "paths._parse_minimize") and len(e.args) >= 10]
    if not calls:
        raise Undecided("no pair evaluation")
    names = ctx.p.fn("paths._dp_compare_flops").params() if ctx.has("paths._dp_compare_flops") else None
    if names is None:
        raise Undecided("signature of the pair evaluation")
    for e in calls:
        A = dict(zip(names, e.args))
        A.update(dict(e.kws))
        loc = e.loc
        s1, s2 = A.get("s1"), A.get("s2")
        lps = [(l[0], l[1]) for l in e.loops]
        # tables of the operands
        if s1 is None or s1.op != "elem" or s2 is None or s2.op != "elem":
            raise Undecided("operands of the pair evaluation")
        t1, t2 = (x.a[0] for x in (s1, s2))
        while mcall(t1, "items", "keys") is not None:
            t1 = t1.a[0].a[0]
        while mcall(t2, "items", "keys") is not None:
            t2 = t2.a[0].a[0]
        if t1.op != "idx" or t2.op != "idx" or t1.a[0] is not t2.a[0]:
            raise Undecided("tables of the operands: " + show(t1, 3))
        T, m, k = t1.a[0], t1.a[1], t2.a[1]
        xn = A.get("xn")
        n = xn.a[1] if xn is not None and xn.op == "idx" and xn.a[0] is T else None
        if n is None:
            raise Undecided("table of the results")
        ranges = [(l, rng(it)) for l, it in lps]
        mr = next((q for l, q in ranges if q is not None and m.op == "elem" and m.a[0] is mk("call", mk("ext", "builtins.range"), q, ())), None) if m.op == "elem" else None
        mr = rng(m.a[0]) if m.op == "elem" else None
        nr = rng(n.a[0]) if n.op == "elem" else None
        if mr is None or nr is None:
            ctx.unk(R, "every split of every size is tried", loc, show(m, 4))
        else:
            # sizes: the result has as many tensors as the parts
            bad = None
            try:
                lens = [x for x in subterms(nr[1]) if is_call(x, "builtins.len")]
                for tot in (1, 2, 3, 4, 5, 8):
                    def vlen(x):
                        return tot if is_call(x, "builtins.len") else None
                    lo, hi = numeval(nr[0], vlen), numeval(nr[1], vlen)
                    if lo > 2 or hi < tot + 1:
                        bad = f"{tot} tensors: results of {lo} to {hi - 1} tensors are built"
                    for nn in range(2, tot + 1):
                        def vn(x):
                            return nn if x is n else None
                        a, b = numeval(mr[0], vn), numeval(mr[1], vn)
                        sizes = set()
                        for mm in range(a, b):
                            kk = numeval(k, lambda x: mm if x is m else nn if x is n else None)
                            if mm + kk != nn:
                                bad = f"parts of {mm} and {kk} tensors are combined to {nn}"
                            sizes.add(frozenset((mm, kk)))
                        for mm in range(1, nn // 2 + 1):
                            if frozenset((mm, nn - mm)) not in sizes:
                                bad = f"{nn} tensors are never split into {mm} and {nn - mm}"
                ctx.put(bad is None, R, "every split of every size is tried", loc, bad or "")
            except Undecided as u:
                ctx.unk(R, "every split of every size is tried", loc, str(u))
        # conditions on a pair
        facts = [f for f in e.facts if contains(f, s1) or contains(f, s2) or contains(f, m)]
        outer = {x for f in facts for x in subterms(f) if x.op == "attr" and x.a[1] == "search_outer"}
        cut = A.get("i1_cut_i2_wo_output")
        wrong = None
        try:
            for so in (False, True):
                for dis in (False, True):
                    for share in (False, True):
                        for same in (False, True):
                            got = []
                            for lt in (False, True):
                                def more(c, env):
                                    if c in outer:
                                        return so
                                    if c is cut or is_call(c, "builtins.bool") and c.a[1][0] is cut:
                                        return share
                                    if c.op == "cmp" and c.a[0] == "lt" and set(c.a[1:]) == {s1, s2}:
                                        return lt if c.a[1] is s1 else not lt
                                    if c.op == "cmp" and c.a[0] == "eq" and set(c.a[1:]) == {s1, s2}:
                                        return False
                                    if c.op == "cmp" and c.a[0] == "eq" and any(is_const(x, 0) for x in c.a[1:]) and any(both(x, s1, s2) for x in c.a[1:]):
                                        return dis
                                    if both(c, s1, s2):
                                        return not dis
                                    return None

                                def val(x):
                                    if x is m:
                                        return 2
                                    if x is n:
                                        return 4 if same else 5
                                    return None
                                got.append(all(truth_of(f, None, numleaf(val, more)) for f in facts))
                            need = dis and (share or so)
                            d = f"({'disjoint' if dis else 'overlapping'} sets of tensors, {'sharing' if share else 'not sharing'} an index, {'equal' if same else 'different'} sizes, search_outer={so})"
                            if need and not (any(got) if same else all(got)):
                                wrong = "a pair is not tried " + d
                            elif not dis and any(got):
                                wrong = "overlapping pairs are combined " + d
                            elif not share and not so and any(got):
                                wrong = "outer products are searched although search_outer is off " + d
            ctx.put(wrong is None, R, "every pair of disjoint parts is tried", loc, wrong or "")
        except Undecided as u:
            ctx.unk(R, "every pair of disjoint parts is tried", loc, str(u))
        # early exits of the loops
        for l, it in lps:
            lp = r.eng.loops[l]
            inner = [x for x in lp.exits if x is not FALSE]
            if it.op != "while":
                ctx.put(True if not inner else None, R, "the enumeration runs to its end", loc, "; ".join(show(x, 4) for x in inner))
        # the bound grows until a result is found
        cap = A.get("cost_cap")
        if cap is not None and cap in r.eng.muinfo:
            lp = next((lp for lp in r.eng.loops.values() if cap in lp.step), None)
            if lp is not None:
                grows(ctx, R, loc, lp, cap)
        else:
            ctx.unk(R, "the bound grows until a result is found", loc, show(cap, 3) if cap is not None else "")
    # the search gives up only when no result can exist
    for e in r.evs("raise"):
        if e.fq == fq:
            giveup(ctx, R, e, r)


def both(x, s1, s2):
    return x.op in ("bin", "inter") and contains(x, s1) and contains(x, s2) and (x.op == "inter" or x.a[0] == "&")


def grows(ctx, R, loc, lp, cap):
    st = lp.step[cap]
    res = []
    for c in (1, 7, 1000):
        for inc in (2, 3, 10):
            def val(x):
                if x is cap:
                    return c
                if is_call(x, "builtins.max") and len(x.a[1]) == 2:
                    k = [cval(y) for y in x.a[1] if y.op == "const"]
                    return max(inc, k[0]) if k else None
                if is_call(x, "builtins.min"):
                    return 1
                return None
            for alt in (False, True):
                def more(q, env):
                    return None if any(y is cap for y in subterms(q)) else alt
                try:
                    res.append((evaln(st, val, more), c))
                except Undecided as u:
                    ctx.unk(R, "the bound grows until a result is found", loc, str(u))
                    return
    ctx.put(all(v > c for v, c in res), R, "the bound grows until a result is found", loc, f"from {res[0][1]} to {res[0][0]}: {show(st, 4)}")


def giveup(ctx, R, e, r):
    name = "giving up only beyond the cost of the naive contraction"
    # facts: bound > naive and no result
    fs = [f for f in e.facts if f.op in ("cmp", "and", "not", "or") and contains(f, lambda s: s.op == "cmp" and s.a[0] == "lt")]
    lts = [c for f in e.facts for c in subterms(f) if c.op == "cmp" and c.a[0] == "lt" and any(x in r.eng.muinfo for x in c.a[1:])]
    if not lts:
        return
    for c in lts:
        cap = next(x for x in c.a[1:] if x in r.eng.muinfo)
        nv = c.a[1] if c.a[2] is cap else c.a[2]
        neg = any(f.op == "not" and f.a[0] is c or f.op == "and" and any(x.op == "not" and x.a[0] is c for x in f.a) for f in e.facts)
        ctx.put((c.a[1] if neg else c.a[2]) is cap, R, name, e.loc, ("not " if neg else "") + show(c, 4))
        scales = objective_scales(ctx, R)
        for obj, need, scale in scales:
            name2 = f"{name} ({obj})"
            bad = None
            try:
                for n in (2, 3, 7):
                    got = bound_at(nv, scale, n, 11)
                    if got < (n - 1) * 11 * need:
                        bad = f"{n} tensors over 11 combinations of indices: gives up beyond {got} although a path may cost {(n - 1) * 11 * need}"
                    elif need != INF and got == INF:
                        bad = "the bound is infinite: the search never ends on a memory limit that no path respects"
                try:
                    bound_at(nv, scale, 3, 10 ** 400)
                except OverflowError as u:
                    bad = f"110 tensors over indices of size 1000 raise OverflowError ({u}): {show(nv, 5)}"
                ctx.put(bad is None, R, name2, e.loc, bad or "")
            except Undecided as u:
                ctx.unk(R, name2, e.loc, str(u))
        zero_sizes(ctx, R, e, nv)


def bound_at(nv, scale, n, prod):
    def val(x):
        if is_call(x, "builtins.len"):
            return n
        if x.op == "idx" and is_call(x.a[0], "paths._parse_minimize"):
            return scale
        if x.op == "fold":
            if x.a[0] != "*" or x.a[1].op != "const":
                raise Undecided(show(x, 3))
            return prod * cval(x.a[1])
        if is_call(x, "math.prod", "functools.reduce") or is_size(x):
            return prod
        return None

    def more(c, env):
        if is_call(c, "builtins.callable"):
            return scale == INF
        if is_call(c, "math.isinf", "math.isfinite") and len(c.a[1]) == 1:
            v = val(c.a[1][0])
            return None if v is None else (v in (INF, -INF)) == (c.a[0].a[0] == "math.isinf" if c.a[0].op == "ext" else "isinf" in show(c.a[0], 2))
        return None
    return evaln(nv, val, more)


def objective_scales(ctx, R):
    """(objective, the most a step may cost relative to the product of all sizes, the scale `_parse_minimize` gives it)"""
    fq = "paths._parse_minimize"
    if fq not in ctx.p.fns:
        return [("flops", 1, 1)]
    r = ctx.run(fq, public=True)
    mini = r.params[ctx.p.fn(fq).params()[0]]
    out = []
    for obj in ("flops", "size", "write", "combo", "combo-0", "combo-3", "combo-100", "limit", "limit-0", "limit-3", "limit-100", "a function"):
        kind, _, num = obj.partition("-")
        f = int(num) if num else 64
        need = INF if obj == "a function" else 1 + f if kind == "combo" else max(1, f) if kind == "limit" else 1

        def val(x):
            if x is mini and kind != "a function":
                return obj
            if mcall(x, "groups"):
                return (kind, num)
            if mcall(x, "group") and len(x.a[1]) == 1 and x.a[1][0].op == "const":
                return {0: obj, 1: kind, 2: num}.get(cval(x.a[1][0]))
            if is_call(x, "builtins.int", "builtins.float") and len(x.a[1]) == 1 and num:
                v = val(strip(x.a[1][0])) if x.a[1][0].op != "idx" else val(x.a[1][0].a[0])
                if x.a[1][0].op == "idx" and isinstance(v, tuple):
                    v = v[cval(x.a[1][0].a[1])]
                return None if v is None else int(v) if is_call(x, "builtins.int") else float(v)
            if x.op in ("global", "ext", "glob") and "DEFAULT_COMBO_FACTOR" in show(x, 2) or show(x, 2) == "DEFAULT_COMBO_FACTOR":
                return 64
            return None

        def leaf(c, env):
            if is_call(c, "builtins.callable") and c.a[1][0] is mini:
                return obj == "a function"
            if kind == "a function" and c.op == "cmp" and c.a[0] in ("eq", "in") and mini in c.a[1:]:
                return False
            if c.op == "cmp" and c.a[0] == "in" and c.a[2].op == "dict" and all(k.op == "const" for k, _ in c.a[2].a):
                v = val(c.a[1])
                return None if v is None else v in [cval(k) for k, _ in c.a[2].a]
            if c.op == "cmp" and c.a[0] == "is" and NONE in c.a[1:]:
                d = c.a[1] if c.a[2] is NONE else c.a[2]
                if mcall(d, "fullmatch", "match"):
                    return False
                if mcall(d, "get") and d.a[0].a[0].op == "dict":
                    return pointeval(d.a[1][0], val, leaf, r) not in [cval(k) for k, _ in d.a[0].a[0].a]
            if c.op == "isinstance" or is_call(c, "builtins.isinstance"):
                return (kind != "a function") if "str" in show(c, 3) else None
            return None
        try:
            t = pick_tuple(r.eng.freeze(r.ret, r.state), val, leaf, r)
            if t.op != "tup" or len(t.a) != 2:
                raise Undecided(show(t, 3))
            out.append((obj, need, pointeval(t.a[1], val, leaf, r)))
        except (Undecided, Fails) as u:
            ctx.unk(R, f"giving up only beyond the cost of the naive contraction ({obj})", ctx.p.fn(fq).loc, str(u))
    return out


def pick_tuple(t, val, leaf, r):
    while t.op in ("phi", "esc"):
        if t.op == "esc":
            t = t.a[0]
        else:
            t = t.a[1] if pointeval(mk("phi", t.a[0], TRUE, FALSE), val, leaf, r) else t.a[2]
    return t


def zero_sizes(ctx, R, e, nv):
    """results without an index of size zero are as large as ever: the bound does not vanish with it"""
    name = "giving up only beyond the cost of the naive contraction (indices of size zero)"
    f = next((x for x in subterms(nv) if x.op == "fold" and x.a[0] == "*" or is_call(x, "math.prod", "functools.reduce") or is_size(x)), None)
    if f is None or is_size(f):
        ctx.unk(R, name, e.loc, show(nv, 4))
        return
    el = f.a[2] if f.op == "fold" else None
    if el is None:
        seq = f.a[1][-1] if is_call(f, "math.prod") else f.a[1][1]
        el = seq.a[1] if seq.op == "comp" else mk("each", seq)
    try:
        v = evaln(el, lambda x: 0 if x.op in ("each", "elem", "idx", "mu") else None, lambda c, env: False if c.op in ("each", "elem") else None)
        ctx.put(v > 0, R, name, e.loc, "an index of size zero makes the bound zero, although results without it are as large as ever: gives up at once")
    except Undecided as u:
        ctx.unk(R, name, e.loc, str(u))


def r_dp_store(ctx):
    R = "results of dynamic programming are stored"
    fns = sorted(f for f in ctx.p.fns if f.startswith("paths._dp_compare"))
    if not fns:
        raise Undecided("no pair evaluation functions")
    for fq in fns:
        r = ctx.run(fq, opaque={SIZE, "paths._dp_calc_legs"})
        P = r.params
        for e in r.evs("mutate"):
            if e.op != "setitem" or e.args[1].op != "tup" or len(e.args[1].a) != 3:
                continue
            cost = e.args[1].a[1]
            key, tab = e.args[0], e.obj
            if any(k not in P for k in ("cost_cap", "memory_limit")):
                ctx.unk(R, fq, e.loc, "parameters")
                continue
            bad = None
            try:
                for lim in (None, 50, 60):
                    for cap in (1001, 5000, INF):
                        def val(x):
                            if x is cost:
                                return 1000
                            if x is P["cost_cap"]:
                                return cap
                            if is_size(x):
                                return 50
                            if x is P["memory_limit"] and lim is not None:
                                return lim
                            return None

                        def more(c, env):
                            if c.op == "cmp" and c.a[0] == "in" and c.a[1] is key and c.a[2] is tab:
                                return False
                            if c.op == "cmp" and c.a[0] == "is" and c.a[1] is P["memory_limit"]:
                                return lim is None
                            return None
                        for f in e.facts:
                            if not truth_of(f, None, numleaf(val, more)):
                                bad = f"a first result of cost 1000 (bound {cap}) and size 50 (limit {lim}) is not stored: {show(f, 4)}"
                ctx.put(bad is None, R, f"{fq}: stored within bound and limit", e.loc, bad or "")
            except Undecided as u:
                ctx.unk(R, f"{fq}: stored within bound and limit", e.loc, str(u))


def check(ctx):
    for fq in ("paths.optimal", "paths.BranchBound.__call__", "paths.DynamicProgramming.__call__"):
        if fq not in ctx.p.fns:
            raise AnalysisBroken(fq + " is missing")
    ctx.rule("exhaustive search", r_optimal)
    ctx.rule("branching search", r_branch)
    ctx.rule("dynamic programming", r_dp)
    ctx.rule("results of dynamic programming are stored", r_dp_store)
