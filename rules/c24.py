"""C24: every path consumes each tensor exactly once and ends with one; the two path formats name the same contractions."""
import itertools

from sa.engine import is_call, mcall
from sa.kit import Undecided, kw, numeval, numleaf, phis, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, const, contains, cval, is_const, kids, mk, subterms
from .common import SEARCH_OPAQUE, call_arg, cases, recursive_nested
from .plan import order_of

DESC = ("Linear-token (ownership) analysis of tensor identifiers: along every path of control through a search step, each identifier put into the path is taken out of the "
        "pool of live ones, each result gets the next unused number and goes back to the pool, and as many numbers are drawn as contractions recorded; the conversions between "
        "position and identifier paths are matched with their definitions.")

GREEDY = "paths.ssa_greedy_optimize"


# ------------------------------------------------------------------ conversions
def sumlen(path):
    def val(S, L):
        def f(t):
            if is_call(t, "builtins.len") and t.a[1][0] is path:
                return L
            if is_call(t, "builtins.sum") and t.a[1][0].op == "comp":
                c = t.a[1][0]
                if c.a[2] == (path,) and is_call(c.a[1], "builtins.len") and c.a[1].a[1][0] is mk("elem", path, 0) and c.a[3] is TRUE:
                    return S
                if c.a[2] == (path,) and c.a[3] is TRUE and c.a[1].op in ("bin", "add"):
                    e = mk("elem", path, 0)
                    x = numeval(c.a[1], lambda u: 1000 if is_call(u, "builtins.len") and u.a[1][0] is e else None)
                    return S + L * (x - 1000)
            return None
        return f
    return val


def is_number(t, path, off=0):
    """is t the number of inputs of the path (+ off)? True/False/None"""
    v = sumlen(path)
    try:
        return all(numeval(t, v(S, L)) == S - L + 1 + off for S, L in ((0, 0), (2, 1), (5, 2), (6, 3), (9, 4)))
    except Undecided:
        return None


def fresh_numbers(r, lp, t, path):
    """does t give n, n+1, ... over the iterations of the loop? True/False/None"""
    if t.op == "mu" and t in lp.step:
        a = is_number(lp.init[t], path)
        try:
            d = numeval(lp.step[t], lambda u: 100 if u is t else None) - 100
        except Undecided:
            return None
        return a if d == 1 else False
    if t.op == "next" and is_call(t.a[0], "itertools.count"):
        if len(t.a[0].a[1]) != 1:
            return None if t.a[0].a[1] else False
        return is_number(t.a[0].a[1][0], path)
    # n + position of the step
    ps = [s for s in subterms(t) if s.op == "pos" and s.a[0] is path]
    if ps:
        v = sumlen(path)
        try:
            return all(numeval(t, lambda u: k if u is ps[0] else v(S, L)(u)) == S - L + 1 + k for S, L, k in ((2, 1, 0), (5, 2, 1), (9, 4, 3)))
        except Undecided:
            return None
    return None


def r_convert(ctx):
    for fq in ("paths.ssa_to_linear", "paths.linear_to_ssa"):
        to_linear = fq.endswith("linear")
        R = "identifiers to positions" if to_linear else "positions to identifiers"
        r = ctx.run(fq, public=True)
        fn = ctx.p.fn(fq)
        path = list(r.params.values())[0]
        step = mk("elem", path, 0)
        live = None
        for lid, lp in r.eng.loops.items():
            if lp.iter is not path and not contains(lp.iter, path):
                continue
            for m, st in lp.step.items():
                d = [s for s in subterms(st) if s.op == "dropall" and s.a[0] is m]
                if d:
                    live = (lp, m, st, d[0])
            if live:
                break
        if not live:
            ctx.unk(R, "list of live identifiers", fn.loc, "not recognised")
            continue
        lp, m, st, d = live
        init = r.eng.freeze(lp.init[m], r.state)
        x = strip(init)
        ok = None
        if is_call(x, "builtins.range"):
            a = x.a[1]
            ok = is_number(a[-1], path) if len(a) == 1 or (len(a) == 2 and is_const(a[0], 0)) else False if len(a) == 2 and a[0].op == "const" else None
        ctx.put(ok, R, "starts with the identifiers 0..n-1 of the inputs", fn.loc, "starts as " + show(init, 5))
        if lp.iter is not path:
            ctx.put(None, R, "steps in the order of the path", fn.loc, show(lp.iter, 4))
        o, b = order_of(d.a[1])
        ctx.put(None if o is None else o == "desc", R, "positions are taken out from the highest down", fn.loc, f"positions are taken out in {'ascending' if o == 'asc' else 'the given'} order")
        if st.op == "append" and st.a[0] is d:
            ctx.put(fresh_numbers(r, lp, st.a[1], path), R, "the result goes to the end under the next identifier", fn.loc, "appends " + show(st.a[1], 5))
        elif st.op == "add" and st.a[0] is d and len(st.a) == 2 and st.a[1].op == "lst" and len(st.a[1].a) == 1:
            ctx.put(fresh_numbers(r, lp, st.a[1].a[0], path), R, "the result goes to the end under the next identifier", fn.loc, "appends " + show(st.a[1], 5))
        else:
            ctx.put(False if st is d or (st.op in ("inserted", "insert")) else None, R, "the result goes to the end under the next identifier", fn.loc, "the list becomes " + show(st, 4))
        ret = r.eng.freeze(r.ret, r.state)
        if to_linear:
            want = None
            pos = strip(d.a[1])
            # positions: where each identifier of the step stands in the list
            if pos.op == "comp" and pos.a[2] == (step,) and pos.a[3] is TRUE:
                e = mk("elem", step, 0)
                el = pos.a[1]
                if is_call(el, "bisect.bisect_left") and el.a[1] == (m, e):
                    want = True
                elif mcall(el, "index") is m and el.a[1] == (e,):
                    want = True
                elif is_call(el, "bisect.bisect_right", "bisect.bisect"):
                    want = False
            ctx.put(want, R, "positions are where the step's identifiers stand", fn.loc, "positions " + show(pos, 5))
            ent = [s for s in subterms(ret) if s.op == "comp" and s.a[2] == (path,) and s.a[3] is TRUE]
            ent += [s.a[2] for s in subterms(ret) if s.op == "out" and s.a[2].op == "append"]
            v = None
            for s in ent:
                el = s.a[1]
                if el is m:
                    continue
                if strip(el) is strip(d.a[1]):
                    v = True
            ctx.put(v, R, "the positions taken out are the step written", fn.loc, "returns " + show(ret, 5))
        else:
            ctx.put(True if strip(b) is step else False if strip(b).op in ("idx", "slice") else None, R, "positions taken out are those of the step", fn.loc, show(d.a[1], 4))
            v, got = None, ""
            for s in subterms(ret):
                x = None
                if s.op == "append":
                    x = s.a[1]
                elif s.op == "comp" and s.a[2] == (path,):
                    x = s.a[1]
                if x is None:
                    continue
                x = strip(x)
                if x.op == "comp" and strip(x.a[2][0]) is step and x.a[3] is TRUE:
                    e = mk("elem", x.a[2][0], 0)
                    if x.a[1].op == "idx" and x.a[1].a[1] is e:
                        v = True if x.a[1].a[0] is m else False if contains(x.a[1].a[0], m) else None
                        got = show(x, 5)
            ctx.put(v, R, "a step is written with the identifiers standing at its positions before it", fn.loc, "writes " + got)


# ------------------------------------------------------------------ exhaustive and branching recursion
def in_set(t, case, names):
    """membership of an element, one of names (an object known to be an element) or 'other'"""
    if t in names:
        return names[t](case)
    if t.op == "union":
        return any([in_set(x, case, names) for x in t.a])
    if t.op == "bin" and t.a[0] in "&-|^":
        a, b = in_set(t.a[1], case, names), in_set(t.a[2], case, names)
        return {"&": a and b, "-": a and not b, "|": a or b, "^": a != b}[t.a[0]]
    if t.op in ("set", "tup", "lst"):
        res = False
        for x in t.a:
            if x.op == "star":
                res = in_set(x.a[0], case, names) or res
            elif x in case:
                res = res or case[x]
            else:
                raise Undecided("element " + show(x, 4))
        return res
    if is_call(t, "builtins.set", "builtins.frozenset", "builtins.tuple", "builtins.list") and len(t.a[1]) == 1:
        return in_set(t.a[1][0], case, names)
    if is_call(t, "builtins.set", "builtins.frozenset") and not t.a[1]:
        return False
    if mcall(t, "difference") is not None:
        return in_set(mcall(t, "difference"), case, names) and not any([in_set(x, case, names) for x in t.a[1]])
    if mcall(t, "union") is not None:
        return any([in_set(x, case, names) for x in (mcall(t, "union"),) + t.a[1]])
    if t.op == "added":
        if t.a[1] in case:
            return case[t.a[1]] or in_set(t.a[0], case, names)
    if t.op == "discarded":
        if t.a[1] in case:
            return not case[t.a[1]] and in_set(t.a[0], case, names)
    raise Undecided("set " + show(t, 4))


def same_pair(a, b):
    """the pairs hold the same two terms, whatever the order (a conditional swap included)"""
    if a is b:
        return True

    def key(p):
        return tuple(sorted(x.n for x in p))
    if key(a) == key(b):
        return True
    # (c ? x : y, c ? y : x)
    def unswap(p):
        x, y = p
        if x.op == "phi" and y.op == "phi" and x.a[0] is y.a[0] and x.a[1] is y.a[2] and x.a[2] is y.a[1]:
            return (x.a[1], x.a[2])
        if is_call(x, "builtins.min", "builtins.max") and is_call(y, "builtins.min", "builtins.max") and sorted(u.n for u in x.a[1]) == sorted(u.n for u in y.a[1]):
            return tuple(x.a[1])
        if x.op == "idx" and y.op == "idx" and x.a[0] is y.a[0] and {x.a[1], y.a[1]} == {const(0), const(1)}:
            b0 = strip(x.a[0], "builtins.sorted", "builtins.tuple", "builtins.list")
            return (mk("idx", b0, const(0)), mk("idx", b0, const(1)))
        return p
    return key(unswap(a)) == key(unswap(b))


def distinct_pair(p, remaining):
    """are the two elements distinct members of `remaining`? True/False/None"""
    x, y = p
    base = set()
    for t in (x, y):
        for _, u in cases(t):
            base.add(u)
    base2 = set()
    for u in base:
        if is_call(u, "builtins.min", "builtins.max"):
            base2 |= set(u.a[1])
        else:
            base2.add(u)
    if len(base2) == 1:
        return False
    if len(base2) != 2:
        return None
    for u in base2:
        if not (u.op == "idx" and u.a[1] in (const(0), const(1)) and u.a[0].op == "elem"):
            return None
    its = {u.a[0].a[0] for u in base2}
    if len(its) != 1:
        return None
    it = its.pop()
    if is_call(it, "itertools.combinations", "itertools.permutations") and len(it.a[1]) == 2 and is_const(it.a[1][1], 2) and strip(it.a[1][0]) is remaining:
        # both components of the pair must be used in either order
        u, v = x, y
        if u.op == "phi" and v.op == "phi" and u.a[0] is v.a[0]:
            return None if not (u.a[1] is not v.a[1] and u.a[2] is not v.a[2]) else True
        return True
    if is_call(it, "itertools.product", "itertools.combinations_with_replacement"):
        return False
    return None


def r_recursion(ctx):
    R = "recursive searches"
    for outer in ("paths.optimal", "paths.BranchBound.__call__"):
        try:
            fq = recursive_nested(ctx, outer)
        except Undecided as u:
            ctx.unk(R, outer + ": recursion", "", str(u))
            continue
        nm = outer.split(".")[1]
        r = ctx.run(fq, opaque=SEARCH_OPAQUE)
        fn = ctx.p.fns[fq]
        calc = [e for e in r.events if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == "paths.calc_k12_flops"]
        rec = [e for e in r.events if e.kind == "call" and e.callee.op in ("func", "clos") and (e.callee.a[0] == fq or e.name == fq)]
        recs = [e for e in r.events if e.kind == "mutate" and e.op == "setitem" and e.args[0] is const("ssa_path")]
        if not calc or not rec:
            ctx.unk(R, nm + ": step", fn.loc, "recursive call or pair calculation not recognised")
            continue
        cfn = ctx.p.fn("paths.calc_k12_flops")
        inputs, remaining = call_arg(calc[0], cfn, "inputs"), call_arg(calc[0], cfn, "remaining")
        if inputs is None or remaining is None or inputs.op != "param" or remaining.op != "param":
            ctx.unk(R, nm + ": step", calc[0].loc, "roles of the search state")
            continue
        paths_ = {s for e in recs for s in subterms(e.args[1]) if s.op == "param" and s not in (inputs, remaining)}
        for e in rec:
            a = {p: call_arg(e, fn, p.a[1]) for p in r.params.values()}
            ni, nr = a.get(inputs), a.get(remaining)
            pp = [(p, v) for p, v in a.items() if p in paths_]
            if ni is None or nr is None or len(pp) != 1 or pp[0][1] is None:
                ctx.unk(R, nm + ": arguments of the recursive call", e.loc, "roles")
                continue
            p, np_ = pp[0]
            pair = None
            if np_.op == "add" and len(np_.a) == 2 and np_.a[0] is p and np_.a[1].op in ("tup", "lst") and len(np_.a[1].a) == 1:
                q = np_.a[1].a[0]
                pair = q.a if q.op == "tup" and len(q.a) == 2 else (mk("idx", q, const(0)), mk("idx", q, const(1)))
            elif np_ is p or (np_.op == "add" and np_.a[-1] is p):
                ctx.bad(R, nm + ": the pair is appended to the path", e.loc, "the path becomes " + show(np_, 4))
                continue
            if pair is None:
                ctx.unk(R, nm + ": the pair is appended to the path", e.loc, show(np_, 4))
                continue
            ctx.ok(R, nm + ": the pair is appended to the path", e.loc)
            new = mk("call", mk("func", "builtins.len"), (inputs,), ())
            lens = [s for s in subterms(nr) if is_call(s, "builtins.len") and s.a[1][0] is inputs]
            new = lens[0] if lens else new
            for c in ("first", "second", "new", "other live", "other dead"):
                case = {pair[0]: c == "first", pair[1]: c == "second", new: c == "new"}
                for s in subterms(nr):      # offsets of the new identifier
                    if s.op == "set":
                        for u in s.a:
                            if u not in case and contains(u, new):
                                case[u] = False
                names = {remaining: lambda k, c=c: c in ("first", "second", "other live")}
                want = c in ("new", "other live")
                try:
                    got = in_set(nr, case, names)
                except Undecided as u:
                    ctx.unk(R, f"{nm}: live tensors after a step ({c})", e.loc, str(u))
                    continue
                ctx.put(got == want, R, f"{nm}: live tensors after a step ({c})", e.loc, f"the {c} tensor is {'kept' if got else 'not kept'}: " + show(nr, 4))
            ok = ni.op == "add" and len(ni.a) == 2 and ni.a[0] is inputs and ni.a[1].op in ("tup", "lst") and len(ni.a[1].a) == 1
            ctx.put(True if ok else False if ni is inputs or (ni.op == "add" and ni.a[-1] is inputs) else None, R, nm + ": the result is stored under the next identifier", e.loc, show(ni, 4))
            # pair
            prs = [pair]
            ct = calc[0]
            cp = (call_arg(ct, cfn, "i"), call_arg(ct, cfn, "j"))
            if pair[0].op == "idx" and any(is_call(s, "heapq.heappop") for s in subterms(pair[0])):
                hp = next(s for s in subterms(pair[0]) if is_call(s, "heapq.heappop"))
                pushes = [q for q in r.events if q.kind == "call" and is_call(q.term, "heapq.heappush")]
                prs = []
                for q in pushes:
                    for lits, v in cases(r.eng.freeze(q.args[1], r.state)):
                        if v.op != "tup":
                            continue
                        from sa.terms import subst
                        try:
                            prs.append(tuple(proj(u, hp, v) for u in pair))
                        except Undecided:
                            prs.append(None)
            okp = [distinct_pair(q, remaining) if q is not None else None for q in prs]
            ctx.put(True if okp and all(x is True for x in okp) else False if any(x is False for x in okp) else None, R, nm + ": a pair is two different live tensors", e.loc,
                    "the pair is " + "; ".join(show(mk("tup", *q), 4) for q in prs if q))
            if cp[0] is not None and len(prs) >= 1 and prs[0] is not None and pair is prs[0]:
                ctx.put(True if same_pair(pair, cp) else None, R, nm + ": the pair costed is the pair contracted", e.loc, "")
        for e in recs:
            v = e.args[1]
            one = [f for f in e.facts for s in subterms(f) if s.op == "cmp" and s.a[0] == "eq" and any(is_call(u, "builtins.len") and u.a[1][0] is remaining for u in s.a[1:]) and is_const(s.a[2], 1)]
            if v in paths_:
                try:
                    t = all(truth_of(c, None, lambda c, _: (False if c.op == "cmp" and c.a[0] == "eq" and any(is_call(u, "builtins.len") and u.a[1][0] is remaining for u in c.a[1:]) else None)) for c in e.facts)
                except Undecided:
                    t = None
                ctx.put(True if one and t is not True else False if not one and t is True else None, R, nm + ": a path is complete when one tensor is left", e.loc, "recorded while more than one tensor may be left")
            elif v.op == "add" and len(v.a) == 2 and v.a[0] in paths_:
                w = v.a[1]
                ok = w.op in ("tup", "lst") and len(w.a) == 1 and strip(w.a[0]) is remaining
                ctx.put(True if ok else None if w.op not in ("tup", "lst") or contains(w, remaining) is False else False, R, nm + ": the closing step takes all that is left", e.loc, show(v, 4))
        # first call
        try:
            ro = ctx.run(outer, opaque=SEARCH_OPAQUE | {fq})
            first = [e for e in ro.events if e.kind == "call" and e.fq == outer and (e.name == fq or (e.callee.op in ("func", "clos") and e.callee.a[0] == fq))]
            for e in first:
                p0 = call_arg(e, fn, next(iter(paths_)).a[1]) if paths_ else None
                i0, r0 = call_arg(e, fn, inputs.a[1]), call_arg(e, fn, remaining.a[1])
                if p0 is not None:
                    p0 = ro.eng.freeze(p0, ro.state)
                    ctx.put(True if p0.op in ("tup", "lst") and not p0.a else None, R, nm + ": starts with the empty path", e.loc, show(p0, 3))
                if i0 is not None and r0 is not None:
                    x = strip(ro.eng.freeze(r0, ro.state))
                    ok = None
                    if is_call(x, "builtins.range") and len(x.a[1]) == 1:
                        n = x.a[1][0]
                        ok = True if is_call(n, "builtins.len") and seqbase(n.a[1][0]) is seqbase(ro.eng.freeze(i0, ro.state)) else False if n.op in ("bin", "add") else None
                    ctx.put(ok, R, nm + ": starts with all inputs live", e.loc, show(r0, 4))
        except Undecided as u:
            ctx.unk(R, nm + ": first call", "", str(u))


def seqbase(t):
    """the sequence whose length t has"""
    while True:
        t = strip(t, "builtins.tuple", "builtins.list")
        if t.op == "comp" and t.a[0] in ("list", "gen", "tuple") and len(t.a[2]) == 1 and t.a[3] is TRUE:
            t = t.a[2][0]
            continue
        return t


def proj(u, whole, v):
    """the component of tuple v a projection of `whole` selects"""
    if u is whole:
        return v
    if u.op == "idx" and u.a[1].op == "const" and isinstance(cval(u.a[1]), int):
        b = proj(u.a[0], whole, v)
        if b.op == "tup":
            k = cval(u.a[1])
            if -len(b.a) <= k < len(b.a):
                return b.a[k]
            raise Undecided("projection")
        return mk("idx", b, u.a[1])
    raise Undecided("projection")


# ------------------------------------------------------------------ greedy search
GREEDY_OPAQUE = frozenset({"paths._push_candidate", "paths._update_ref_counts", "helpers.compute_size_by_dict", "paths._simple_chooser", "paths._get_candidate"})


def base_of(r, t):
    """the container a (possibly updated) value is"""
    for _ in range(60):
        if t.op == "mu" and t in r.eng.muinfo and r.eng.muinfo[t][0] == "heap":
            t = r.eng.muinfo[t][1]
        elif t.op in ("setitem", "esc", "dictdel", "append", "popped", "dmerge", "inserted"):
            t = t.a[0]
        elif t.op == "out":
            lp = r.eng.loops.get(t.a[0])
            t = t.a[2]
        elif t.op == "phi":
            xs = {base_of(r, t.a[1]), base_of(r, t.a[2])}
            if len(xs) == 1:
                return xs.pop()
            return t
        else:
            return t
    return t


def r_greedy(ctx):
    R = "greedy identifiers"
    r = ctx.run(GREEDY, public=True, opaque=GREEDY_OPAQUE)
    fn = ctx.p.fn(GREEDY)
    inputs = r.params[fn.params()[0]]
    nexts = [e for e in r.events if e.kind == "next" and is_call(e.content, "itertools.count")]
    if not nexts:
        raise Undecided("no counter of identifiers")
    counters = {e.obj for e in nexts}
    ns = [s for s in subterms(nexts[0].content) if is_call(s, "builtins.len")]
    if len(counters) != 1:
        raise Undecided("several counters")
    cnt = nexts[0].content
    n0 = cnt.a[1]
    ok = None
    if len(n0) == 1:
        x = n0[0]
        if is_call(x, "builtins.len") and seqbase(x.a[1][0]) is inputs:
            ok = True
        elif is_call(x, "builtins.len") and x.a[1][0].op == "comp" and x.a[1][0].a[0] == "set" and x.a[1][0].a[2] == (inputs,):
            ok = False
        else:
            try:
                ok = numeval(x, lambda u: 7 if is_call(u, "builtins.len") and seqbase(u.a[1][0]) is inputs else None) == 7
            except Undecided:
                ok = None
    elif not n0:
        ok = False
    ctx.put(ok, R, "new identifiers start after the inputs", nexts[0].loc, "counts from " + show(cnt, 4))
    # the path list: what is returned
    rets = [e for e in r.events if e.kind == "return" and e.fq == GREEDY]
    P = {e.raw for e in rets if e.d.get("raw") is not None and e.raw.op == "new"}
    apps = [e for e in r.events if e.kind == "mutate" and e.op == "append" and e.obj in P and e.loops]
    if not apps:
        raise Undecided("path list")
    loops = []
    for e in apps + nexts:
        k = e.loops[-1][0] if e.loops else None
        if k is None:
            continue
        if k not in loops:
            loops.append(k)
    for lid in loops:
        evs = [e for e in r.events if e.loops and e.loops[-1][0] == lid and e.kind in ("mutate", "next", "call")]
        seq = [e for e in evs if (e.kind == "mutate" and (e in apps or e.op in ("setitem", "pop", "delitem"))) or e.kind == "next" or
               (e.kind == "call" and heapcall(e))]
        seq = [e for e in seq if e.kind != "mutate" or e in apps or e.obj.op == "new"]
        conds = []
        for e in seq:
            for f in e.facts:
                for c in lits_of(f):
                    if c not in conds:
                        conds.append(c)
        var = [c for c in conds if not all(any(x is c for f in e.facts for x in lits_of(f)) for e in seq) or any(f is mk("not", c) for e in seq for f in e.facts)]
        # only conditions the events disagree on need both values
        split = []
        for c in conds:
            pol = set()
            for e in seq:
                s = [polarity(f, c) for f in e.facts if any(x is c for x in lits_of(f))]
                pol.add(tuple(s))
            if len(pol) > 1:
                split.append(c)
        if len(split) > 6:
            ctx.unk(R, f"loop {lid}: branches", seq[0].loc, f"{len(split)} conditions")
            continue
        for vals in itertools.product((True, False), repeat=len(split)):
            env = dict(zip(split, vals))
            run = []
            for e in seq:
                try:
                    if all(truth_of(f, env, lambda c, v: v[c] if c in v else None if c.op in ("not", "and", "or") else True) for f in e.facts if any(x in env for x in lits_of(f))):
                        run.append(e)
                except Undecided:
                    run = None
                    break
            if run is None:
                ctx.unk(R, f"loop {lid}: branches", seq[0].loc, "conditions")
                break
            if not any(e in apps or e.kind == "next" for e in run):
                continue
            tokens(ctx, R, r, run, apps, env, inputs, lid)


def heapcall(e):
    for n in ("heappop", "heappush", "heappushpop", "heapreplace"):
        if is_call(e.term, "heapq." + n):
            return n
    return None


def lits_of(f):
    if f.op in ("not",):
        return lits_of(f.a[0])
    if f.op in ("and", "or"):
        return [x for y in f.a for x in lits_of(y)]
    return [f]


def polarity(f, c):
    return f is c


def tokens(ctx, R, r, run, apps, env, inputs, lid):
    """one path of control through one iteration"""
    loc = next(e.loc for e in run if e in apps or e.kind == "next")
    cond = " and ".join(("" if v else "not ") + show(c, 2) for c, v in env.items()) or "always"
    word = f"step at {loc.split(':')[-1]} when {cond}" if False else None
    draws, appn = [], 0
    pool = {}        # token -> state
    popped = {}      # term -> key
    used = []
    drawn = {}       # next term -> draw index
    for e in run:
        if e.kind == "next":
            drawn[len(drawn)] = e
    na, nd = sum(e in apps for e in run), len(drawn)
    tag = f"{'/'.join(sorted({e.loc.split(':')[-1] for e in run if e in apps})) or loc.split(':')[-1]}"
    name = "one identifier drawn per recorded contraction"
    ctx.put(na == nd, R, f"{name} [{brief(r, env)}]", loc, f"{na} contractions are recorded and {nd} identifiers drawn when {cond}")
    # next terms in order of drawing
    order = []
    for e in run:
        if e.kind != "next":
            continue
        order.append(e)
    terms = {}
    for e in run:
        ts = []
        if e.kind == "mutate":
            ts = [x for x in e.args]
        elif e.kind == "call":
            ts = [x for x in e.args]
        for t in ts:
            for s in subterms(t):
                if s.op == "next":
                    terms.setdefault(s, None)
    nx = sorted(terms, key=lambda s: s.a[1])
    if len(nx) != nd:
        if len(nx) < nd:
            ctx.unk(R, f"identifiers drawn are used [{brief(r, env)}]", loc, "")
        nx_idx = {s: k for k, s in enumerate(nx)}
    nx_idx = {s: k for k, s in enumerate(nx)}
    k = 0
    taken, bad, unk = [], None, None
    removed = {}
    stored_after = {}
    for e in run:
        if e in apps:
            v = e.args[0]
            if v.op != "tup" or len(v.a) != 2:
                unk = "recorded " + show(v, 4)
                k += 1
                continue
            pair = list(v.a)
            if all(is_call(x, "builtins.min", "builtins.max") for x in pair) and pair[0].a[1] == pair[1].a[1] and pair[0].a[0] is not pair[1].a[0]:
                pair = list(pair[0].a[1])
            elif all(is_call(x, "builtins.min", "builtins.max") for x in pair) and set(pair[0].a[1]) == set(pair[1].a[1]) and pair[0].a[0] is not pair[1].a[0]:
                pair = list(pair[0].a[1])
            elif all(is_call(x, "builtins.min", "builtins.max") for x in pair) and pair[0].a[0] is pair[1].a[0]:
                bad = "both members of a recorded pair are the same tensor"
            if pair[0] is pair[1]:
                bad = "a tensor is paired with itself: " + show(v, 4)
            for x in pair:
                if x in taken:
                    bad = "a tensor is contracted twice: " + show(x, 4)
                taken.append(x)
                if x.op == "next":
                    if nx_idx[x] >= k:
                        bad = "an identifier is used before its contraction is recorded: " + show(x, 3)
            k += 1
    dicts = [e for e in run if e.kind == "mutate" and e not in apps]
    D = None
    for e in dicts:
        for t in taken:
            for s in subterms(t):
                if s.op in ("idx", "get") and base_of(r, s.a[0]) is e.obj:
                    D = e.obj
    if D is None and any(e.op == "setitem" and any(s.op == "next" for s in subterms(e.args[1])) for e in dicts):
        D = next(e.obj for e in dicts if e.op == "setitem" and any(s.op == "next" for s in subterms(e.args[1])))
    heap = [e for e in run if e.kind == "call"]
    for x in taken:
        if x.op == "next":
            continue
        if x.op == "pos":
            if base_seq(x.a[0]) is not inputs:
                unk = "identifier " + show(x, 3)
            continue
        if x.op in ("idx", "get") and D is not None and base_of(r, x.a[0]) is D:
            key = x.a[1]
            gone = [e for e in dicts if e.obj is D and e.args and e.args[0] is key and e.op in ("pop", "delitem", "setitem")]
            if not gone:
                bad = "a contracted tensor stays live under its key " + show(key, 3)
            continue
        if is_call(x, "heapq.heappop") or (x.op == "idx" and is_call(x.a[0], "heapq.heappop", "heapq.heappushpop", "heapq.heapreplace")):
            continue
        if x.op == "mu" and x in r.eng.muinfo:
            lp = r.eng.loops[lid]
            st = lp.step.get(x)
            if st is None or st is x:
                bad = "a contracted tensor stays the current one"
            elif not (st.op == "idx" and is_call(st.a[0], "heapq.heappushpop", "heapq.heapreplace", "heapq.heappop")) and st.op != "next":
                unk = "the current tensor becomes " + show(st, 4)
            continue
        unk = "identifier " + show(x, 4)
    # what is popped must be contracted
    for e in dicts:
        if e.obj is D and e.op in ("pop", "delitem"):
            key = e.args[0]
            if not any(x.op in ("idx", "get") and x.a[1] is key for x in taken):
                bad = bad or "a tensor is dropped without being contracted: key " + show(key, 3)
        if e.obj is D and e.op == "setitem":
            key, val = e.args[0], e.args[1]
            had = None
            for c, v in env.items():
                if c.op == "cmp" and c.a[0] == "in" and c.a[1] is key and base_of(r, c.a[2]) is D:
                    had = v
            if had is True and not any(x.op in ("idx", "get") and x.a[1] is key for x in taken):
                bad = bad or "a live tensor is overwritten without being contracted: key " + show(key, 3)
            if had is None and not any(x.op in ("idx", "get") and x.a[1] is key for x in taken):
                # no test whether the key is taken
                bad = bad or "a tensor is stored without testing whether its key is in use: key " + show(key, 3)
            if val.op not in ("next", "pos"):
                unk = unk or "stored " + show(val, 4)
            if val.op == "next" and val in taken:
                bad = bad or "a contracted tensor is stored as live"
            if val.op == "next" and nx_idx[val] != nd - 1:
                bad = bad or "the tensor stored is not the result of the last contraction"
            if val.op == "pos" and na:
                bad = bad or "an input is stored and contracted"
    for s in nx:
        if s in taken:
            continue
        st = [e for e in dicts if e.obj is D and e.op == "setitem" and e.args[1] is s]
        hp = [e for e in heap if heapcall(e) in ("heappushpop", "heappush", "heapreplace") and any(u is s for a in e.args[1:] for u in subterms(a))]
        if not st and not hp:
            bad = bad or "a result is neither contracted nor kept: " + show(s, 3)
    if na and not nx and nd:
        bad = bad or "results get no identifier"
    ctx.put(False if bad else None if unk else True, R, f"tensors are used once and results kept [{brief(r, env)}]", loc, (bad or unk or "") + f" (when {cond})")


def brief(r, env):
    out = []
    for c, v in env.items():
        if c.op == "cmp" and c.a[0] == "in":
            out.append(("same" if v else "new") + " index set")
        else:
            out.append(("" if v else "not ") + show(c, 2)[:40])
    return ", ".join(sorted(set(out))) or "always"


def base_seq(t):
    t = seqbase(t)
    if is_call(t, "builtins.enumerate"):
        return base_seq(t.a[1][0])
    return t


def r_final(ctx):
    R = "greedy leftovers"
    r = ctx.run(GREEDY, public=True, opaque=GREEDY_OPAQUE)
    fn = ctx.p.fn(GREEDY)
    rets = [e for e in r.events if e.kind == "return" and e.fq == GREEDY]
    P = {e.raw for e in rets if e.d.get("raw") is not None and e.raw.op == "new"}
    # the loop that merges what is left
    done = False
    for lid, lp in r.eng.loops.items():
        for m, st in lp.step.items():
            if r.eng.muinfo[m][0] != "heap" or r.eng.muinfo[m][1] not in P or st.op != "append":
                continue
            v = st.a[1]
            hp = [s for s in subterms(v) if is_call(s, "heapq.heappop")]
            if not hp:
                continue
            done = True
            q = hp[0].a[1][0]
            qm = q if q.op == "mu" else None
            init = lp.init.get(qm) if qm is not None else None
            if init is None:
                ctx.unk(R, "queue of what is left", fn.loc, show(q, 3))
                continue
            comp = [s for s in subterms(init) if s.op == "comp" and s.a[0] == "list"]
            # every live tensor with its identifier is in the queue
            ok = None
            msg = ""
            for c in comp:
                if c.a[1].op == "tup" and len(c.a[2]) == 1:
                    it = c.a[2][0]
                    d = mcall(it, "items")
                    d = d if d is not None else it
                    # identifier component
                    pos = [k for k, x in enumerate(c.a[1].a) if x.op == "idx" and x.a[0] is d]
                    used = [k for s in subterms(v) if s.op == "idx" and s.a[0] is hp[0] and s.a[1].op == "const" for k in [cval(s.a[1])]]
                    if pos and c.a[3] is TRUE:
                        ok = True if used and all(k in pos for k in used) else False
                        msg = f"component {used} of a queue entry is used as the identifier, which is component {pos}"
                    elif c.a[3] is not TRUE and pos:
                        ok, msg = False, "not every live tensor enters the queue: " + show(c.a[3], 4)
                    break
            ctx.put(ok, R, "all live tensors enter the queue with their identifiers", fn.loc, msg)
            # the merged tensor is pushed with the new identifier at the same component
            psh = [s for s in subterms(*[x for x in lp.step.values()]) if is_call(s, "heapq.heappushpop", "heapq.heapreplace")]
            if psh and comp and comp[0].a[1].op == "tup":
                t = psh[0].a[1][1]
                idp = [k for k, x in enumerate(comp[0].a[1].a) if x.op == "idx"]
                if t.op == "tup":
                    kk = [k for k, x in enumerate(t.a) if x.op == "next"]
                    ctx.put(kk == idp if kk and idp else None, R, "a merged tensor re-enters the queue under its identifier", fn.loc, f"identifier at component {kk}, expected {idp}")
                ctx.put(not is_call(psh[0], "heapq.heapreplace") or None, R, "the merged tensor may be picked again at once", fn.loc, "")
            else:
                ctx.unk(R, "a merged tensor re-enters the queue", fn.loc, "")
    if not done:
        ctx.unk(R, "merging of what is left", fn.loc, "not recognised")


# ------------------------------------------------------------------ choosers
def live_facts(facts, item, remaining, r):
    """do the facts say that both index sets of the item are live? -> set of components known live"""
    out = set()

    def go(f, pol):
        if f.op == "not":
            go(f.a[0], not pol)
        elif (f.op == "and" and pol) or (f.op == "or" and not pol):
            for x in f.a:
                go(x, pol)
        elif f.op == "cmp" and f.a[0] == "in" and pol and base_of(r, f.a[2]) is remaining and f.a[1].op == "idx" and f.a[1].a[0] is item and f.a[1].a[1].op == "const":
            out.add(cval(f.a[1].a[1]))
    for f in facts:
        go(f, True)
    return out


def r_choosers(ctx):
    R = "choice of candidates"
    for fq in ("paths._simple_chooser", "path_random.thermal_chooser"):
        if not ctx.has(fq):
            ctx.unk(R, fq, "", "missing")
            continue
        r = ctx.run(fq)
        fn = ctx.p.fn(fq)
        queue, remaining = (r.params[p] for p in fn.params()[:2])
        nm = fq.split(".")[-1]
        pops = [e for e in r.events if e.kind == "call" and heapcall(e) == "heappop"]
        if not pops:
            ctx.unk(R, nm + ": takes from the queue", fn.loc, "")
            continue
        for e in pops:
            ctx.put(True if base_of(r, e.args[0]) is queue else None, R, nm + ": takes from the queue", e.loc, "")
        item = pops[0].term
        keep = [e for e in r.events if e.kind == "mutate" and e.op == "append" and any(s is item for s in subterms(e.args[0]))]
        rets = [e for e in r.events if e.kind == "return" and e.value is not NONE]
        direct = [e for e in rets if contains(e.value, item)]
        for e in (keep or direct):
            k = live_facts(e.facts, item, remaining, r)
            ctx.put(True if {1, 2} <= k else False, R, nm + ": a candidate is used only if both its tensors are still live", e.loc,
                    f"component(s) {sorted({1, 2} - k)} of the candidate not tested")
        if not keep and not direct:
            ctx.unk(R, nm + ": candidate used", fn.loc, "not recognised")
        if keep:
            L = keep[0].obj
            # those not chosen go back
            back = [e for e in r.events if e.kind == "call" and heapcall(e) == "heappush" and base_of(r, e.args[0]) is queue]
            popd = [e for e in r.events if e.kind == "mutate" and e.obj is L and e.op in ("pop", "remove", "delitem")]
            for e in rets:
                v = e.value
                if contains(v, lambda s: s.op == "out") is False and base_of(r, v) is not L:
                    pass
            if back:
                e = back[0]
                x = e.args[1]
                ok = None
                if x.op == "elem":
                    b = x.a[0]
                    if b.op == "popped":
                        ok = True if base_of(r, b) is L and not extra(e.facts, rets) else None
                    elif b.op == "idx" and b.a[1].op == "slice" and b.a[0].op == "popped" and base_of(r, b.a[0]) is L:
                        lo, hi, st = b.a[1].a
                        part = not is_const(lo, None, 0) and lo.op == "const" or not is_const(hi, None) and not is_call(hi, "builtins.len") or not is_const(st, None, 1, -1)
                        ok = False if part else None
                    elif base_of(r, b) is L:
                        ok = None
                ctx.put(ok, R, nm + ": the candidates not chosen go back to the queue", e.loc, "pushed back: " + show(x, 4))
            else:
                many = [e for e in rets if popd]
                ctx.put(False if not any(e.kind == "escape" and e.obj is queue for e in r.events if e.n > keep[0].n + 1) else None, R, nm + ": the candidates not chosen go back to the queue", fn.loc, "nothing is pushed back")


def extra(facts, rets):
    return False


def r_distinct(ctx):
    R = "candidate pairs"
    r = ctx.run(GREEDY, public=True, opaque=GREEDY_OPAQUE)
    fq = "paths._push_candidate"
    ev = [e for e in r.events if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == fq] if ctx.has(fq) else []
    if not ev:
        ctx.unk(R, "candidates", "", "not recognised")
    for n, e in enumerate(ev):
        f = ctx.p.fn(fq)
        k1, k2s = call_arg(e, f, "k1"), call_arg(e, f, "k2s")
        ok, msg = None, ""
        if k1 is not None and k2s is not None:
            x = strip(k2s, "builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted")
            msg = "partners " + show(x, 3)
            if x.op == "discarded":
                ok = True if x.a[1] is k1 else None
            elif x.op == "bin" and x.a[0] == "-" and x.a[2].op == "set":
                ok = True if k1 in x.a[2].a else None
            elif x.op == "comp" and x.a[3] is TRUE and len(x.a[2]) == 2 and x.a[1] is mk("elem", x.a[2][1], 0) and contains(x.a[2][0], k1):
                ok, msg = False, "a tensor is offered as its own partner"
            elif x.op == "comp" and x.a[3].op == "not" and x.a[3].a[0].op == "cmp" and x.a[3].a[0].a[0] == "eq":
                ok = True if k1 in x.a[3].a[0].a[1:] else None
            elif x.op == "idx" and x.a[1].op == "slice" and k1.op == "elem":
                L = k1.a[0]
                b = L.a[0] if L.op == "idx" and L.a[1].op == "slice" and L.a[1].a[0] in (NONE, const(0)) else L
                if b is x.a[0]:
                    lo = x.a[1].a[0]
                    try:
                        d = [numeval(lo, lambda u: k if u.op == "pos" and u.a[0] is L else None) - k for k in (0, 3, 7)]
                        ok = all(v == 1 for v in d)
                        msg = "a tensor is offered as its own partner" if min(d) < 1 else "some pairs are never offered"
                    except Undecided:
                        ok = None
        ctx.put(ok, R, f"a tensor is never its own partner ({'at the start' if not any('while' in str(l[1])[:8] for l in e.loops) else 'after a step'})", e.loc, msg)


# ------------------------------------------------------------------ results in position form
def r_results(ctx):
    R = "result of a search"
    S = "paths.ssa_to_linear"
    for fq in ("paths.optimal", "paths.greedy"):
        r = ctx.run(fq, public=True, opaque=frozenset(ctx.p.fns) - {fq} - {f for f in ctx.p.fns if f.startswith(fq + ".")} if fq == "paths.greedy" else SEARCH_OPAQUE)
        for e in r.events:
            if e.kind != "return" or e.fq != fq:
                continue
            for lits, v in cases(e.value):
                if is_call(v, S):
                    x = v.a[1][0]
                    good = contains(x, lambda s: is_call(s, GREEDY)) or contains(x, const("ssa_path"))
                    ctx.put(True if good else None, R, f"{fq}: positions of the best path", e.loc, show(x, 4))
                elif is_call(v, "paths.branch"):
                    ctx.ok(R, f"{fq}: with a limit, the branching search", e.loc)
                elif is_call(v, GREEDY) or (v.op == "idx" and is_const(v.a[1], "ssa_path")):
                    ctx.bad(R, f"{fq}: positions of the best path", e.loc, "identifiers are returned as positions")
                else:
                    ctx.unk(R, f"{fq}: positions of the best path", e.loc, show(v, 4))
    for cls in ("paths.BranchBound", "path_random.RandomOptimizer"):
        fq = cls + ".path"
        if not ctx.has(fq):
            ctx.unk(R, fq, "", "missing")
            continue
        r = ctx.run(fq, opaque=frozenset({S}))
        v = r.eng.freeze(r.ret, r.state)
        ok = None
        if is_call(v, S):
            ok = True if v.a[1][0].op == "idx" and is_const(v.a[1][0].a[1], "ssa_path") else None
        elif v.op == "idx" and is_const(v.a[1], "ssa_path"):
            ok = False
        ctx.put(ok, R, f"{fq}: positions of the best path", ctx.p.fn(fq).loc, show(v, 4))


# ------------------------------------------------------------------ dynamic programming
def r_dp(ctx):
    R = "dynamic programming"
    fq = "paths.DynamicProgramming.__call__"
    opq = frozenset({"helpers.compute_size_by_dict", "paths._parse_minimize", "paths._dp_parse_out_single_term_ops", "paths._find_disconnected_subgraphs", "paths._bitmap_select",
                     "paths._tree_to_sequence", "paths.simple_tree_tuple"})
    r = ctx.run(fq, public=True, opaque=opq)
    fn = ctx.p.fn(fq)
    P = call_one(r, "paths._parse_minimize")
    ck = [e for e in r.events if e.kind == "call" and e.callee.op == "idx" and contains(e.callee, P)] if P is not None else []
    if not ck:
        ck = [e for e in r.events if e.kind == "call" and e.fq.startswith(fq) and len(e.args) + len(e.kws) >= 12]
    names = ctx.p.fn("paths._dp_compare_flops").params() if ctx.has("paths._dp_compare_flops") else None
    if not ck or names is None:
        ctx.unk(R, "combination of sub-results", fn.loc, "not recognised")
    for e in ck:
        a = dict(zip(names, e.args))
        a.update(dict(e.kws))
        s1, s2 = a.get("s1"), a.get("s2")
        if s1 is None or s2 is None:
            ctx.unk(R, "combination of sub-results", e.loc, "arguments")
            continue
        def direct(t):
            return any(u is s1 or u is s2 for u in subterms(t, stop=lambda u: u.op == "idx" and u not in (s1, s2)))
        fs = [c for f in e.facts for c in (f.a if f.op == "and" else (f,)) if direct(c)]
        res = {}
        for a1, a2 in ((1, 2), (2, 1), (1, 6), (6, 1), (5, 2), (8, 3), (3, 6), (6, 3), (1, 3), (3, 1), (3, 3), (5, 7)):
            def val(u, a1=a1, a2=a2):
                if u is s1:
                    return a1
                if u is s2:
                    return a2
                if u.op == "bin" and u.a[0] in ("&", "|", "^"):
                    try:
                        x, y = numeval(u.a[1], val), numeval(u.a[2], val)
                    except Undecided:
                        return None
                    return x & y if u.a[0] == "&" else x | y if u.a[0] == "|" else x ^ y
                if u.op == "union":
                    v = 0
                    for x in u.a:
                        v |= numeval(x, val)
                    return v
                return None
            for free in (True, False):
                def more(c, env, free=free):
                    if c.op not in ("and", "or", "not", "phi", "const") and not direct(c):
                        return free
                    return None
                try:
                    res[a1, a2, free] = all(truth_of(f, None, numleaf(val, more)) for f in fs if True)
                except Undecided:
                    res[a1, a2, free] = None
        over = [v for (x, y, f), v in res.items() if x & y]
        dis = False if any(v is True for v in over) else None if any(v is None for v in over) else True
        ctx.put(dis, R, "only disjoint sets of tensors are combined", e.loc, "two sub-results sharing a tensor may be combined")
        # the partial contraction and indices belong to their set
        for k in ("1", "2"):
            s, i, c, t = a.get("s" + k), None, a.get("cost" + k), a.get("contract" + k)
            rs = {entry_of(x, s) for x in (c, t)}
            ctx.put(True if rs == {1, 2} and entry_of(c, s) == 1 and entry_of(t, s) == 2 else False if None not in rs else None, R, f"operand {k}: cost and tree of the same entry", e.loc, show(t, 4))
    # the trees of the compare functions
    for nm in ("flops", "size", "write", "combo"):
        f2 = "paths._dp_compare_" + nm
        if not ctx.has(f2):
            ctx.unk(R, f2, "", "missing")
            continue
        r2 = ctx.run(f2, opaque=frozenset({"helpers.compute_size_by_dict", "paths._dp_calc_legs"}))
        p2 = r2.params
        sets = [e for e in r2.events if e.kind == "mutate" and e.op == "setitem" and e.obj is p2.get("xn")]
        if not sets:
            ctx.unk(R, f"{nm}: entry stored", ctx.p.fn(f2).loc, "")
        for e in sets:
            k, v = e.args[0], e.args[1]
            okk = is_union(k, p2["s1"], p2["s2"])
            ctx.put(okk, R, f"{nm}: stored under the union of both sets", e.loc, "stored under " + show(k, 3))
            tr = v.a[2] if v.op == "tup" and len(v.a) == 3 else None
            ok = None
            if tr is not None and tr.op == "tup":
                ok = len(tr.a) == 2 and {tr.a[0], tr.a[1]} == {p2["contract1"], p2["contract2"]}
            ctx.put(ok, R, f"{nm}: the tree joins both operands", e.loc, "stored tree " + show(tr, 3) if tr is not None else "")
    # single tensors
    init = [s for e in r.events for t in list(e.args if e.kind in ("mutate", "call") else []) for s in subterms(t) if s.op == "comp" and s.a[0] == "dict" and s.a[1].op == "tup"]
    one = [s for s in init if s.a[1].a[0].op == "bin" and s.a[1].a[0].a[0] == "<<" and s.a[1].a[1].op == "tup" and len(s.a[1].a[1].a) == 3]
    if one:
        s = one[0]
        key, ent = s.a[1].a
        j = key.a[2]
        ok = is_const(key.a[1], 1) and ent.a[0].op == "idx" and ent.a[0].a[1] is j and ent.a[2].op == "idx" and ent.a[2].a[1] is j
        other = ent.a[0].op == "idx" and ent.a[2].op == "idx" and (ent.a[0].a[1] is not j or ent.a[2].a[1] is not j)
        ctx.put(True if ok else False if other else None, R, "a single tensor stands for itself", fn.loc, show(s.a[1], 4))
    else:
        ctx.unk(R, "a single tensor stands for itself", fn.loc, "")
    r_single(ctx, R)
    r_subgraphs(ctx, R)
    # all parts are joined
    tr = [e for e in r.events if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == "paths._tree_to_sequence"]
    ctx.put(True if tr else None, R, "the tree is turned into a path", fn.loc, "")
    rets = [e for e in r.events if e.kind == "return" and e.fq == fq]
    for e in rets:
        for _, v in cases(e.value):
            ctx.put(True if is_call(v, "paths._tree_to_sequence") else None, R, "what is returned is the path of the tree", e.loc, show(v, 3))


    for e in tr:
        for _, v in cases(e.args[0]):
            ok, msg = all_joined(v)
            ctx.put(ok, R, "all parts are joined in the tree", e.loc, msg)


def lenkey(t):
    """the length of a sequence as a bag of unknown lengths"""
    t = strip(t, "builtins.list", "builtins.tuple", "builtins.sorted")
    if t.op == "add":
        return tuple(sorted(x for y in t.a for x in lenkey(y)))
    if t.op == "bin" and t.a[0] == "*" and t.a[1].op == "lst" and len(t.a[1].a) == 1 and is_call(t.a[2], "builtins.len"):
        return lenkey(t.a[2].a[1][0])
    if is_call(t, "builtins.range") and len(t.a[1]) == 1 and is_call(t.a[1][0], "builtins.len"):
        return lenkey(t.a[1][0].a[1][0])
    if t.op == "comp" and t.a[0] != "dict" and len(t.a[2]) == 1 and t.a[3] is TRUE:
        return lenkey(t.a[2][0])
    if t.op in ("slice", "phi", "comp") and t.op != "phi":
        raise Undecided("length of " + show(t, 4))
    return (t.n,)


def all_joined(v):
    while is_call(v, "paths.simple_tree_tuple", "builtins.tuple", "builtins.list"):
        v = v.a[1][0]
    if v.op == "idx" and is_call(v.a[0], "paths._dp_parse_out_single_term_ops"):
        return (True, "") if is_const(v.a[1], 1) else (False, "joins " + show(v, 3))
    if v.op == "add":
        return True, ""
    if v.op == "comp" and len(v.a[2]) == 1:
        it = v.a[2][0]
        if v.a[3] is not TRUE:
            return None, "condition " + show(v.a[3], 3)
        if v.a[1].op == "idx" and v.a[1].a[1] is mk("elem", it, 0):
            x = strip(it, "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed")
            if x.op == "idx" and x.a[1].op == "slice" or x.op == "slice":
                return False, "only a part of the order is used: " + show(it, 3)
            try:
                return (True, "") if lenkey(x) == lenkey(v.a[1].a[0]) else (None, "lengths")
            except Undecided as u:
                return None, str(u)
    return None, show(v, 4)


def call_one(r, fq):
    for e in r.events:
        if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == fq:
            return e.term
    return None


def entry_of(t, s):
    """which component of the entry stored under key s the term is"""
    if t is None or s is None:
        return None
    if t.op == "idx" and t.a[1].op == "const" and t.a[0].op == "idx":
        b = t.a[0]
        if b.a[1] is s:
            return cval(t.a[1])
        # item pair: s = item[0], entry = item[1][k]
        if s.op == "idx" and is_const(s.a[1], 0) and b.a[0] is s.a[0] and is_const(b.a[1], 1):
            return cval(t.a[1])
        if s.op == "elem" and b.op == "idx" and b.a[1].op == "elem" and b.a[1] is not s:
            return "other"
    return None


def is_union(k, a, b):
    if k.op == "union":
        return set(k.a) == {a, b}
    if k.op == "bin" and k.a[0] in ("|", "^", "&", "-"):
        return {k.a[1], k.a[2]} == {a, b} and k.a[0] in ("|", "^")
    if k.op == "add":
        return True if set(k.a) == {a, b} else None     # disjoint sets
    return False if k in (a, b) else None


def r_single(ctx, R):
    fq = "paths._dp_parse_out_single_term_ops"
    if not ctx.has(fq):
        ctx.unk(R, "single-tensor sums", "", "missing")
        return
    r = ctx.run(fq)
    fn = ctx.p.fn(fq)
    rets = [e for e in r.events if e.kind == "return"]
    if len(rets) != 1 or rets[0].d.get("raw") is None or rets[0].raw.op != "tup" or len(rets[0].raw.a) != 3:
        ctx.unk(R, "single-tensor sums", fn.loc, "")
        return
    A, B, C = rets[0].raw.a
    apps = {x: [e for e in r.events if e.kind == "mutate" and e.op == "append" and e.obj is x] for x in (A, B, C)}
    if not all(apps.values()):
        ctx.unk(R, "single-tensor sums", fn.loc, "")
        return
    inputs = r.params[fn.params()[0]]
    conds = []
    for x in apps.values():
        for e in x:
            for f in e.facts:
                for c in lits_of(f):
                    if c not in conds:
                        conds.append(c)
    bad, unk = None, None
    for vals in itertools.product((True, False), repeat=len(conds)):
        env = dict(zip(conds, vals))
        try:
            n = {k: sum(all(truth_of(f, env, lambda c, v: v.get(c)) for f in e.facts) for e in v) for k, v in apps.items()}
        except Undecided as u:
            unk = str(u)
            continue
        if not ((n[B] == 1 and n[A] == n[C] == 0) or (n[B] == 0 and n[A] == n[C] == 1)):
            bad = f"an input is entered {n[B]} time(s) as finished and {n[A]}/{n[C]} times as open"
    ctx.put(False if bad else None if unk else True, R, "every input is either finished or open, once", fn.loc, bad or unk or "")
    for e in apps[B] + apps[C]:
        for _, v in cases(e.args[0]):
            x = v
            if x.op == "tup" and len(x.a) == 1:
                x = x.a[0]
            ctx.put(True if x.op == "pos" and base_seq(x.a[0]) is inputs else None, R, "an input keeps its position", e.loc, show(v, 3))


def r_subgraphs(ctx, R):
    fq = "paths._find_disconnected_subgraphs"
    if not ctx.has(fq):
        ctx.unk(R, "separate parts", "", "missing")
        return
    r = ctx.run(fq)
    fn = ctx.p.fn(fq)
    rem = [e for e in r.events if e.kind == "mutate" and e.op in ("difference_update", "discard", "remove", "pop") and e.obj.op == "new"]
    ext = [e for e in r.events if e.kind == "mutate" and e.op in ("extend", "append", "update") and e.loops]
    du = [e for e in rem if e.op == "difference_update"]
    ex = [e for e in ext if e.op == "extend"]
    if du and ex:
        ctx.put(True if du[0].args[0] is ex[0].args[0] or du[0].d.get("raw") == ex[0].d.get("raw") else None, R, "separate parts: tensors queued are no longer free", du[0].loc, "")
    elif ex:
        free = {e.obj for e in rem if e.op in ("pop",) and not e.args}
        n = ex[0].args[0]
        if n.op == "comp" and any(base_of(r, i) in free for i in n.a[2]):
            ctx.bad(R, "separate parts: tensors queued are no longer free", ex[0].loc, "tensors put in the queue stay in the set of free ones and are met again")
        else:
            ctx.unk(R, "separate parts: tensors queued are no longer free", ex[0].loc, "")
    else:
        ctx.unk(R, "separate parts", fn.loc, "")


# ------------------------------------------------------------------ tree to sequence
def r_tree(ctx):
    R = "tree to positions"
    fq = "paths._tree_to_sequence"
    if not ctx.has(fq):
        ctx.unk(R, fq, "", "missing")
        return
    r = ctx.run(fq)
    fn = ctx.p.fn(fq)
    ret = [e for e in r.events if e.kind == "return" and e.d.get("raw") is not None and e.raw.op == "new" and e.loops == ()]
    if not ret:
        ret = [e for e in r.events if e.kind == "return"]
    ms = [e for e in r.events if e.kind == "mutate" and e.loops]
    S = ret[-1].d.get("raw")
    # stack of subtrees: popped object in the outer loop
    pops = [e for e in ms if e.op == "pop" and len(e.loops) == 1]
    if len(pops) != 1:
        ctx.unk(R, "stack of subtrees", fn.loc, "")
        return
    Cst = pops[0].obj
    p = pops[0].args[0] if pops[0].args else const(-1)
    ctx.put(True if is_const(p, -1) else False if p.op == "const" else None, R, "the subtree taken is the last one", pops[0].loc, "takes " + show(p, 2))
    push = [e for e in ms if e.obj is Cst and e.op in ("append", "insert", "extend")]
    ctx.put(True if push and all(e.op == "append" for e in push) else False if any(e.op == "insert" for e in push) else None, R, "subtrees go to the end of the list", fn.loc, "")
    first = [e for e in ms if e.obj is S and e.op in ("insert", "append") and len(e.loops) == 1]
    ctx.put(True if first and all(e.op == "insert" and is_const(e.args[0], 0) for e in first) else False if first and all(e.op == "append" for e in first) and is_rev(ret[-1]) is False else None, R, "steps are written from the last to the first", fn.loc, "")
    ins = [e for e in ms if e.op == "insert" and e.obj is not S and e.obj is not Cst]
    if len(ins) != 1:
        ctx.unk(R, "positions of inputs", fn.loc, "")
        return
    T_ = ins[0].obj
    leaf = ins[0].args[1]
    posn = ins[0].args[0]
    # position: number of smaller ones already present
    cnts = [s for e in r.events for t in vals(e) for s in subterms(t) if is_call(s, "builtins.sum", "builtins.len") and s.a[1] and s.a[1][0].op == "comp" and len(s.a[1][0].a[2]) == 1 and s.a[1][0].a[3] is not TRUE]
    good = None
    for s in cnts:
        c = s.a[1][0]
        q = mk("elem", c.a[2][0], 0)
        if base_of(r, c.a[2][0]) is not T_ and not (c.a[2][0].op == "mu"):
            continue
        f = c.a[3]
        if f.op == "cmp" and f.a[0] == "lt":
            good = True if f.a[1] is q else False
        elif f.op == "not" and f.a[0].op == "cmp" and f.a[0].a[0] == "lt":
            good = True if f.a[0].a[2] is q else False
    for s in [s for e in r.events for t in vals(e) for s in subterms(t) if is_call(s, "bisect.bisect_left", "bisect.bisect")]:
        good = True
    ctx.put(good, R, "an input stands after the smaller inputs still present", fn.loc, "counts the inputs that are not smaller")
    # order in which leaves of a node are handled: ascending
    it = ins[0].loops[-1][1] if len(ins[0].loops[-1]) > 1 else None
    if it is not None:
        o = is_call(it, "builtins.sorted") and not it.a[2]
        rv = is_call(it, "builtins.sorted") and any(k == "reverse" and v is TRUE for k, v in it.a[2])
        ctx.put(True if o else False if rv or it.op == "comp" else None, R, "inputs of a step are handled in ascending order", ins[0].loc, "order " + show(it, 3))
    # subtrees: after all inputs present and the other subtrees
    ok, msg = None, ""
    for e in ms:
        if e.obj is S and e.op == "setitem" and push and e.loops[-1][0] == push[0].loops[-1][0]:
            w = e.args[1]
            if w.op == "add" and w.a[-1].op == "tup" and len(w.a[-1].a) == 1:
                v = w.a[-1].a[0]
                try:
                    ok = all(numeval(v, lambda u: (a if base_of(r, u.a[1][0]) is T_ else b if base_of(r, u.a[1][0]) is Cst else None) if is_call(u, "builtins.len") else None) == a + b
                             for a, b in ((0, 0), (3, 0), (0, 2), (4, 5)))
                    ok = ok if e.n < push[0].n else False
                    msg = "written as " + show(v, 4)
                except Undecided as u:
                    ok, msg = None, str(u)
    ctx.put(ok, R, "a subtree stands after the inputs present and the other subtrees", fn.loc, msg)


def vals(e):
    from sa.terms import T
    out = []
    for v in e.d.values():
        if isinstance(v, T):
            out.append(v)
        elif isinstance(v, (tuple, list)):
            out += [x for x in v if isinstance(x, T)]
    return out


def is_rev(e):
    return None if contains(e.value, lambda s: is_call(s, "builtins.reversed") or s.op == "slice") else False


def check(ctx):
    ctx.rule("conversions", r_convert)
    ctx.rule("recursive searches", r_recursion)
    ctx.rule("greedy identifiers", r_greedy)
    ctx.rule("greedy leftovers", r_final)
    ctx.rule("choice of candidates", r_choosers)
    ctx.rule("candidate pairs", r_distinct)
    ctx.rule("result of a search", r_results)
    ctx.rule("dynamic programming", r_dp)
    ctx.rule("tree to positions", r_tree)
