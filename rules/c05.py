"""C05: an index survives a contraction step exactly when a remaining term or the output still needs it."""
import itertools
from sa.engine import is_call, mcall
from sa.kit import Undecided, decide_set, fmt_env, member, numleaf, show, strip, truth_of, root
from sa.terms import TRUE, NOT, cmp, const, contains, cval, is_const, mk, subst, subterms

DESC = ("Set-algebra membership tables: the value-flow term of every 'which indices survive' computation (path summary, exhaustive "
        "and branching searches, greedy candidate + reference counts, dynamic programming) is compared, for one arbitrary index, "
        "with the definition 'in a contracted term and (in the output or in a remaining term)' over all membership cases.")


# ------------------------------------------------------------------ helpers
def positions_kind(x, P, S):
    """Is x an iteration over positions that removes from the back first?"""
    if is_call(x, "builtins.sorted") and strip(x.a[1][0]) is P:
        k = dict(x.a[2])
        if set(k) <= {"reverse"}:
            return "desc" if k.get("reverse") is TRUE else "asc"
    if is_call(x, "builtins.reversed") and is_call(x.a[1][0], "builtins.sorted") and strip(x.a[1][0].a[1][0]) is P:
        return "desc" if not x.a[1][0].a[2] else "asc"
    if x.op == "idx" and x.a[1] is mk("slice", const(None), const(None), const(-1)) and is_call(x.a[0], "builtins.sorted"):
        return "desc" if not x.a[0].a[2] else None
    if strip(x) is P:
        return "given"
    return None


def selection(t, S, P):
    """Classify a collection of terms: 'picked' / 'others' / ('wrong', why) / None."""
    t = strip(t, "builtins.list", "builtins.tuple", "builtins.iter", "builtins.reversed")
    if t.op == "star":
        return selection(t.a[0], S, P)
    if t.op == "dropall" and t.a[0] is S:
        k = positions_kind(t.a[1], P, S)
        if t.a[2] is mk("elem", t.a[1], 0):
            return "others" if k == "desc" else ("wrong", "positions are removed front to back") if k in ("asc", "given") else None
    if t.op == "comp" and len(t.a[2]) == 1:
        el, it, c = t.a[1], t.a[2][0], t.a[3]
        if el.op == "take" and el.a[0] is S and c is TRUE and el.a[1] is mk("elem", it, 0):
            k = positions_kind(it, P, S)
            return "picked" if k == "desc" else ("wrong", "positions are removed front to back") if k in ("asc", "given") else None
        if el.op == "idx" and el.a[0] is S and c is TRUE and el.a[1] is mk("elem", it, 0) and positions_kind(it, P, S):
            return "picked"
        if el is mk("elem", S, 0):
            pos = mk("pos", S)
            inn = cmp("in", pos, P)
            if c is inn:
                return "picked"
            if c is NOT(inn):
                return "others"
            if c is TRUE:
                return ("wrong", "every term is included, contracted or not")
    if t is S:
        return ("wrong", "every term is included, contracted or not")
    return None


class Wrong(Exception):
    pass


def r_find_contraction(ctx):
    R = "path-step index sets"
    r = ctx.run("helpers.find_contraction", public=True)
    names = list(r.params)
    P, S, O = (r.params[n] for n in names[:3])
    ret = r.eng.freeze(r.ret, r.state)
    where = ctx.p.fn("helpers.find_contraction").loc
    if ret.op != "tup" or len(ret.a) != 4:
        raise Undecided("find_contraction does not return four values: " + show(ret, 4))
    wrong = []

    def atom(t):
        if strip(t) is O or t is O:
            return "out"
        k = selection(t, S, P)
        if isinstance(k, tuple):
            wrong.append(k[1])
            return lambda e: e["picked"] or e["others"]
        return k

    env = ["picked", "others", "out"]
    specs = [("surviving indices", ret.a[0], lambda e: e["picked"] and (e["others"] or e["out"])),
             ("removed indices", ret.a[2], lambda e: e["picked"] and not (e["others"] or e["out"])),
             ("all indices involved", ret.a[3], lambda e: e["picked"])]
    for what, t, sp in specs:
        v, ce = decide_set(t, env, atom, sp)
        if wrong:
            ctx.bad(R, "find_contraction: " + what, where, wrong[0])
            return
        ctx.put(v == "ok", R, "find_contraction: " + what, where, "" if v == "ok" else f"wrong for an index with {fmt_env(ce)}: {show(t, 6)}")
    rem = ret.a[1]
    if rem.op in ("append", "add"):
        base, last = rem.a[0], rem.a[-1]
        if rem.op == "add":
            last = last.a[0] if last.op == "lst" and len(last.a) == 1 else last
        k = selection(base, S, P)
        if k == "others" and last is ret.a[0]:
            ctx.ok(R, "find_contraction: remaining terms", where)
        elif k == "picked" or isinstance(k, tuple):
            ctx.bad(R, "find_contraction: remaining terms", where, "the remaining list is not the untouched terms: " + show(rem, 5))
        elif k == "others":
            v, ce = decide_set(last, env, atom, specs[0][2])
            ctx.put(v == "ok", R, "find_contraction: remaining terms", where, "the appended term is not the result: " + show(last, 6))
        else:
            ctx.unk(R, "find_contraction: remaining terms", where, show(rem, 5))
    elif selection(rem, S, P) is not None:
        ctx.bad(R, "find_contraction: remaining terms", where, "the new term is not appended to the remaining terms")
    elif rem.op == "inserted":
        ctx.bad(R, "find_contraction: remaining terms", where, "the new term is not placed last, where path positions expect it")
    else:
        ctx.unk(R, "find_contraction: remaining terms", where, show(rem, 5))


def gathered(t, inputs, remaining, i, j):
    """t: a collection of inputs[x] for x in X; returns the kinds (i, j, rest) of positions in X."""
    t = strip(t, "builtins.list", "builtins.tuple", "builtins.iter", "builtins.set", "builtins.frozenset")
    if t.op == "star":
        t = strip(t.a[0], "builtins.list", "builtins.tuple", "builtins.iter")
    if t.op != "comp" or len(t.a[2]) != 1:
        return None
    el, it, c = t.a[1], t.a[2][0], t.a[3]
    e = mk("elem", it, 0)
    if el.op != "idx" or el.a[0] is not inputs or el.a[1] is not e:
        return None
    out = set()
    for kind, term in (("i", i), ("j", j), ("rest", None)):
        def atom(x, kind=kind, term=term):
            x = strip(x)
            if x is remaining:
                return lambda env: True
            if x.op in ("set", "tup", "lst") and x.a and all(y in (i, j) for y in x.a):
                return lambda env: term is not None and term in x.a
            return None

        def leaf(cc, env, kind=kind, term=term):
            if cc.op == "cmp" and cc.a[0] == "in" and cc.a[1] is e:
                return member(cc.a[2], {}, atom)
            if cc.op == "cmp" and cc.a[0] == "eq" and e in cc.a[1:]:
                o = cc.a[1] if cc.a[2] is e else cc.a[2]
                if o in (i, j):
                    return term is o
            return None

        if member(it, {}, atom) and truth_of(c, {}, leaf):
            out.add(kind)
    return out


def r_k12(ctx):
    R = "pairwise result of the searches"
    fq = "paths.calc_k12_flops"
    r = ctx.run(fq, opaque={"helpers.flop_count"})
    ps = r.params
    inputs, output, remaining, i, j = (ps[n] for n in list(ps)[:5])
    ret = r.eng.freeze(r.ret, r.state)
    where = ctx.p.fn(fq).loc
    k12 = ret.a[0] if ret.op == "tup" else None
    if k12 is None:
        raise Undecided("calc_k12_flops does not return a pair")

    def atom(t):
        if t.op == "idx" and t.a[0] is inputs and t.a[1] in (i, j):
            return "k1" if t.a[1] is i else "k2"
        if strip(t) is output:
            return "out"
        g = gathered(t, inputs, remaining, i, j)
        if g is not None:
            return lambda e: ("i" in g and e["k1"]) or ("j" in g and e["k2"]) or ("rest" in g and e["others"])
        return None

    v, ce = decide_set(k12, ["k1", "k2", "others", "out"], atom, lambda e: (e["k1"] or e["k2"]) and (e["others"] or e["out"]))
    ctx.put(v == "ok", R, "calc_k12_flops: surviving indices", where, "" if v == "ok" else f"wrong for an index with {fmt_env(ce)}: {show(k12, 6)}")
    # every user of the pair computation hands over its whole remaining set and the output
    for fq2 in ("paths.optimal", "paths.BranchBound.__call__", "path_random.ssa_path_compute_cost"):
        if not ctx.has(fq2):
            continue
        r2 = ctx.run(fq2, opaque={"paths.calc_k12_flops", "helpers.compute_size_by_dict", "paths._compute_oversize_flops"})
        for ev in r2.evs("call"):
            if ev.callee is mk("func", fq) and len(ev.args) >= 3:
                outp = next((n for n in ("output", "output_") if n in r2.params), None)
                if outp is None:
                    continue
                o = strip(ev.args[1])
                good = o is r2.params[outp] or contains(o, r2.params[outp])
                ctx.put(True if o is r2.params[outp] else None if good else False, R, f"{ev.fq}: output handed to calc_k12_flops", ev.loc,
                        "" if good else "the output indices are not what the search was asked for: " + show(o, 4))


def r_candidate(ctx):
    R = "greedy candidate result"
    fq = "paths._get_candidate"
    r = ctx.run(fq, opaque={"helpers.compute_size_by_dict"})
    ps = r.params
    need = ("output", "dim_ref_counts", "k1", "k2")
    if any(n not in ps for n in need):
        raise Undecided("_get_candidate has other parameters")
    ret = r.eng.freeze(r.ret, r.state)
    where = ctx.p.fn(fq).loc
    if ret.op != "tup" or len(ret.a) != 4:
        raise Undecided("_get_candidate does not return four values")
    k12 = ret.a[3]
    ref = ps["dim_ref_counts"]

    def atom(t):
        if t is ps["k1"]:
            return "k1"
        if t is ps["k2"]:
            return "k2"
        if strip(t) is ps["output"]:
            return "out"
        if t.op == "idx" and t.a[0] is ref and t.a[1].op == "const" and isinstance(cval(t.a[1]), int):
            n = cval(t.a[1])
            if n not in (2, 3):
                raise Undecided("reference count table %r" % n)
            return lambda e: (not e["out"]) and (e["k1"] + e["k2"] + e["one other"] + e["two others"]) >= n
        return None

    v, ce = decide_set(k12, ["k1", "k2", "out", "one other", "two others"], atom,
                       lambda e: (e["k1"] or e["k2"]) and (e["out"] or e["one other"] or e["two others"]),
                       valid=lambda e: not e["two others"] or e["one other"])
    ctx.put(v == "ok", R, "_get_candidate: surviving indices", where, "" if v == "ok" else f"wrong for an index with {fmt_env(ce)}: {show(k12, 6)}")


def r_refcounts(ctx):
    R = "greedy reference counts"
    fq = "paths._update_ref_counts"
    r = ctx.run(fq)
    if any(n not in r.params for n in ("dim_to_keys", "dim_ref_counts", "dims")):
        raise Undecided("_update_ref_counts has other parameters")
    d2k, ref, dims = (r.params[n] for n in ("dim_to_keys", "dim_ref_counts", "dims"))
    dim = mk("elem", dims, 0)
    cnt = mk("call", mk("ext", "builtins.len"), (mk("idx", d2k, dim),), ())
    where = ctx.p.fn(fq).loc
    evs = []
    for e in r.evs("mutate"):
        o = e.obj
        if o.op == "idx" and o.a[0] is ref:
            evs.append((e, o.a[1]))
        elif o.op == "elem" or o.op == "idx":
            evs.append((e, None))
        else:
            raise Undecided("modifies " + show(o, 4))
    if not evs:
        raise Undecided("no reference count update found")
    for n in (2, 3):
        for c in range(0, 6):
            def val(t):
                if t is cnt:
                    return c
                if t.op == "elem" and strip(t.a[0]) is ref:
                    return n
                if t is mk("idx", d2k, dim):
                    return c  # truthiness of the key set
                return None

            state = None
            for e, k in evs:
                if k is None:
                    raise Undecided("update of " + show(e.obj, 4))
                kv = cval(k) if k.op == "const" else n if k.op == "elem" and strip(k.a[0]) is ref else None
                if k.op == "elem" and k.a[0].op in ("lst", "tup", "set"):
                    kv = n if const(n) in k.a[0].a else None
                    if kv is None:
                        continue
                if kv is None:
                    raise Undecided("update of " + show(e.obj, 4))
                if kv != n or e.args[:1] != (dim,):
                    continue

                def val2(t, k=k):
                    return n if t is k and k.op != "const" else val(t)

                if all(truth_of(f, {}, numleaf(val2)) for f in e.facts):
                    if e.op == "add":
                        state = True
                    elif e.op in ("discard", "remove"):
                        state = False
                    else:
                        raise Undecided("operation " + e.op)
            want = c >= n
            if state is None:
                ctx.bad(R, f"_update_ref_counts: table {n}", where, f"an index held by {c} terms keeps whatever entry it had in table {n}")
                break
            if state != want:
                ctx.bad(R, f"_update_ref_counts: table {n}", where, f"an index held by {c} terms is {'listed in' if state else 'missing from'} table {n}")
                break
        else:
            ctx.ok(R, f"_update_ref_counts: table {n}", where, "exact for every holder count")


GREEDY_OPAQUE = {"paths._push_candidate", "paths._get_candidate", "helpers.compute_size_by_dict", "paths._update_ref_counts"}


def r_greedy_tables(ctx):
    R = "greedy reference counts"
    fq = "paths.ssa_greedy_optimize"
    r = ctx.run(fq, opaque=GREEDY_OPAQUE)
    outp = r.params["output"]
    calls = [e for e in r.evs("call") if e.callee is mk("func", "paths._push_candidate")]
    if not calls:
        raise Undecided("no candidate generation found")
    sig = ctx.p.fn("paths._push_candidate").params()

    def arg(e, n):
        i = sig.index(n) if n in sig else None
        if i is None:
            return None
        for k, v in e.kws:
            if k == n:
                return v
        return e.args[i] if i < len(e.args) else None

    def out_atom(t):
        t0 = strip(t)
        if t0 is outp:
            return "out"
        if is_call(t, "builtins.frozenset.intersection", "builtins.set.intersection"):
            return "everywhere"
        if t.op == "fold" and t.a[0] == "&":
            return "everywhere"
        return None

    for e in calls:
        o = arg(e, "output")
        if o is None:
            raise Undecided("candidate generation has other parameters")
        v, ce = decide_set(o, ["out", "everywhere"], out_atom, lambda x: x["out"] or x["everywhere"], valid=lambda x: not x["everywhere"] or x["out"])
        ctx.put(v == "ok", R, f"ssa_greedy_optimize: output handed to the candidates ({e.loc.split(':')[0]})", e.loc,
                "" if v == "ok" else f"an output index is not treated as needed: {show(o, 5)}")
    first = arg(calls[0], "dim_ref_counts")
    if first.op == "comp" and first.a[0] == "dict" and len(first.a[2]) == 1:
        it = strip(first.a[2][0])
        kt, vt = first.a[1].a
        if it.op in ("lst", "tup", "set") and kt is mk("elem", it, 0):
            ns = [cval(x) for x in it.a if x.op == "const"]
            pairs = [(n, subst(vt, {kt: const(n)})) for n in ns]
        else:
            raise Undecided("initial tables " + show(first, 4))
    elif first.op == "dict":
        pairs = [(cval(k), v) for k, v in first.a if k.op == "const"]
    else:
        raise Undecided("initial tables " + show(first, 4))
    if any(not contains(v, lambda x: x.op in ("comp", "out")) for _, v in pairs):
        # tables that start empty and are filled one index at a time
        filled = [e for e in r.evs("mutate") if e.n < calls[0].n and e.op in ("add", "update") and e.obj.op != "idx"]
        if filled:
            raise Undecided("initial tables filled one index at a time at " + filled[0].loc)
    for n in (2, 3):
        vt = dict(pairs).get(n)
        if vt is None:
            ctx.bad(R, f"ssa_greedy_optimize: initial table {n}", calls[0].loc, f"table {n} is never set up")
            continue
        bad = None
        for c in range(0, 5):
            for isout in (False, True):
                if isout and c:
                    continue

                def atom(t):
                    t0 = strip(t)
                    if out_atom(t) == "out" or out_atom(t) == "everywhere":
                        return lambda e: isout
                    if t.op == "comp" and t.a[0] in ("set", "gen", "list") and len(t.a[2]) == 1:
                        it = t.a[2][0]
                        d = mcall(it, "items") or it
                        if t.a[1] is mk("elem", d, 0):
                            keys = mk("idx", d, mk("elem", d, 0))
                            ln = mk("call", mk("ext", "builtins.len"), (keys,), ())
                            v = truth_of(t.a[3], {}, numleaf(lambda x: c if x in (ln, keys) else None))
                            return lambda e: v and c > 0 or (v and c == 0)
                    return None

                got = member(vt, {}, atom)
                if got != (c >= n and not isout):
                    bad = f"an index held by {c} terms{' and in the output' if isout else ''} is {'listed in' if got else 'missing from'} table {n}"
        ctx.put(bad is None, R, f"ssa_greedy_optimize: initial table {n}", calls[0].loc, bad or "")


def r_greedy_maintenance(ctx):
    R = "greedy bookkeeping of holders"
    fq = "paths.ssa_greedy_optimize"
    r = ctx.run(fq, opaque=GREEDY_OPAQUE)
    outp = r.params["output"]
    upd = [e for e in r.evs("call") if e.callee is mk("func", "paths._update_ref_counts")]
    pops = [e for e in r.evs("mutate") if e.op == "pop" and e.loops]
    if not upd or not pops:
        raise Undecided("contraction loop not recognised")
    loop = upd[0].loops[-1][0]
    pops = [e for e in pops if e.loops[-1][0] == loop]
    keys = []
    for e in pops:
        if e.args and e.args[0] not in keys:
            keys.append(e.args[0])
    if len(keys) != 2:
        raise Undecided(f"{len(keys)} keys are consumed per step")
    k1, k2 = keys

    def holders(e):
        """mutation of the per-index holder sets: (index collection, key)"""
        o = e.obj
        if o.op == "idx" and o.a[1].op == "elem" and e.args:
            return o.a[1].a[0], e.args[0]
        return None, None

    def covers(coll, k):
        """does coll contain every non-output index of k (and nothing but indices of k)?"""
        for kk in (False, True):
            for out in (False, True):
                def atom(t):
                    if t is k:
                        return lambda e: kk
                    if strip(t) is outp:
                        return lambda e: out
                    if is_call(t, "builtins.frozenset.intersection"):
                        return lambda e: out
                    return None
                m = member(coll, {}, atom)
                if kk and not out and not m:
                    return False
        return True

    inl = [e for e in r.evs("mutate") if e.loops and any(x[0] == loop for x in e.loops)]
    for k, nm in ((k1, "first"), (k2, "second")):
        rem = [e for e in inl if e.op in ("remove", "discard") and holders(e)[1] is k]
        if not rem:
            dif = [e for e in inl if e.op == "difference_update"]
            (ctx.unk if dif else ctx.bad)(R, f"ssa_greedy_optimize: {nm} contracted term leaves the holder sets", upd[0].loc,
                                          "the contracted term is never removed from the holder sets of its indices")
            continue
        ok = any(covers(holders(e)[0], k) for e in rem)
        ctx.put(ok, R, f"ssa_greedy_optimize: {nm} contracted term leaves the holder sets", rem[0].loc,
                "" if ok else "not removed for all of its non-output indices")
        ctx.put(all(e.n < upd[0].n for e in rem), R, f"ssa_greedy_optimize: {nm} term removed before counts are refreshed", rem[0].loc,
                "the reference counts are refreshed before the holder sets are")
    # the new term enters
    stores = [e for e in inl if e.op == "setitem" and e.loops[-1][0] == loop and e.args[0] not in keys and e.args[1].op == "next"]
    new = stores[-1].args[0] if stores else None
    if not stores:
        ctx.unk(R, "ssa_greedy_optimize: new term enters the holder sets", upd[0].loc, "no id assignment recognised")
    else:
        k12 = stores[-1].args[0]
        add = [e for e in inl if e.op == "add" and holders(e)[1] is k12]
        if not add:
            ctx.bad(R, "ssa_greedy_optimize: new term enters the holder sets", stores[-1].loc, "the new term is never added to the holder sets of its indices")
        else:
            ok = any(covers(holders(e)[0], k12) for e in add)
            ctx.put(ok, R, "ssa_greedy_optimize: new term enters the holder sets", add[0].loc, "" if ok else "not added for all of its non-output indices")
            ctx.put(all(e.n < upd[0].n for e in add), R, "ssa_greedy_optimize: new term added before counts are refreshed", add[0].loc,
                    "the reference counts are refreshed before the holder sets are")
    # refreshed indices
    sig = ctx.p.fn("paths._update_ref_counts").params()
    d = upd[0].args[sig.index("dims")] if "dims" in sig and len(upd[0].args) > sig.index("dims") else None
    if d is None:
        ctx.unk(R, "ssa_greedy_optimize: refreshed indices", upd[0].loc)
    else:
        bad = None
        for a in (False, True):
            for b in (False, True):
                for out, kept in itertools.product((False, True), (False, True) if new is not None and (a or b) else (False,)):
                    def atom(t):
                        if t is k1:
                            return lambda e: a
                        if t is k2:
                            return lambda e: b
                        if new is not None and t is new:
                            return lambda e: kept
                        if strip(t) is outp or is_call(t, "builtins.frozenset.intersection"):
                            return lambda e: out
                        return None
                    if (a and b or (a or b) and not kept) and not out and not member(d, {}, atom):
                        bad = f"the counts of an index with first={a}, second={b}, result={kept} are not refreshed after the step"
        ctx.put(bad is None, R, "ssa_greedy_optimize: refreshed indices", upd[0].loc, bad or "")


def r_dp_legs(ctx):
    R = "dynamic programming legs"
    fq = "paths._dp_calc_legs"
    r = ctx.run(fq)
    ps = r.params
    need = ("g", "all_tensors", "s", "inputs", "i1_cut_i2_wo_output", "i1_union_i2")
    if any(n not in ps for n in need):
        raise Undecided("_dp_calc_legs has other parameters")
    t = r.eng.freeze(r.ret, r.state)
    where = ctx.p.fn(fq).loc
    g, al, s = ps["g"], ps["all_tensors"], ps["s"]

    def bits(x):
        """which kinds of tensors a bitmap selects: (already merged, rest of the group, other groups)"""
        out = []
        for kind in ("s", "g", "o"):
            def atom(y):
                if y is s:
                    return lambda e: kind == "s"
                if y is g:
                    return lambda e: kind in ("s", "g")
                if y is al:
                    return lambda e: True
                if y.op == "un" and y.a[0] == "Invert":
                    return lambda e: not member(y.a[1], {}, atom)
                return None
            out.append(member(x, {}, atom))
        return out

    def bitmap(x):
        """the bitmap a comprehension over (inputs, bits) selects with"""
        for z in subterms(x):
            if is_call(z, "builtins.bin") and z.a[1]:
                return z.a[1][0]
        return None

    bad = []

    def atom(x):
        if x is ps["i1_cut_i2_wo_output"]:
            return "both, not output"
        if x is ps["i1_union_i2"]:
            return "either"
        y = x.a[0] if x.op == "star" else x
        y = strip(y)
        if y.op == "comp" and contains(y, ps["inputs"]):
            b = bitmap(y)
            if b is None:
                return None
            k = bits(b)
            if not k[1]:
                bad.append("the group's other tensors are not consulted")
            if k[0]:
                bad.append("the merged tensors themselves are counted as remaining")
            return "rest"
        if x.op == "truth":
            try:
                k = bits(x.a[0])
            except Undecided:
                return None
            return "some rest"
        return None

    v, ce = decide_set(t, ["both, not output", "either", "rest", "some rest"], atom,
                       lambda e: e["either"] and not (e["both, not output"] and not e["rest"]),
                       valid=lambda e: (not e["both, not output"] or e["either"]) and (not e["rest"] or e["some rest"]))
    if bad:
        ctx.bad(R, "_dp_calc_legs: surviving indices", where, bad[0])
    else:
        ctx.put(v == "ok", R, "_dp_calc_legs: surviving indices", where, "" if v == "ok" else f"wrong for an index with {fmt_env(ce)}: {show(t, 6)}")


def r_dp_call(ctx):
    R = "dynamic programming legs"
    fq = "paths.DynamicProgramming.__call__"
    r = ctx.run(fq, public=True, opaque={"paths._parse_minimize", "paths._tree_to_sequence", "helpers.compute_size_by_dict",
                                         "paths._find_disconnected_subgraphs", "paths._dp_parse_out_single_term_ops"})
    sig = ctx.p.fn("paths._dp_compare_flops").params() if ctx.has("paths._dp_compare_flops") else []
    evs = [e for e in r.evs("call") if e.callee.op == "idx" and contains(e.callee, lambda x: is_call(x, "paths._parse_minimize")) and len(e.args) >= 10]
    if not evs or "i1_union_i2" not in sig or "i1_cut_i2_wo_output" not in sig:
        raise Undecided("pair evaluation not recognised")
    for e in evs:
        u = e.args[sig.index("i1_union_i2")] if sig.index("i1_union_i2") < len(e.args) else None
        c = e.args[sig.index("i1_cut_i2_wo_output")] if sig.index("i1_cut_i2_wo_output") < len(e.args) else None
        if u is None or c is None or u.op != "union" or len(u.a) != 2:
            if u is not None and u.op == "bin":
                ctx.bad(R, "DynamicProgramming: indices of a pair", e.loc, "the indices involved are not the union of both legs: " + show(u, 4))
                continue
            raise Undecided("pair evaluation arguments " + show(u, 4))
        a, b = u.a

        def atom(t):
            if t is a:
                return "first"
            if t is b:
                return "second"
            t0 = strip(t)
            if t0.op == "comp" and t0.a[0] == "set" and contains(t0, r.params.get("output_", r.params[list(r.params)[2]])) and not contains(
                    t0.a[2][0], r.params[list(r.params)[1]]):
                return "out"
            return None

        v, ce = decide_set(c, ["first", "second", "out"], atom, lambda x: x["first"] and x["second"] and not x["out"])
        ctx.put(v == "ok", R, "DynamicProgramming: indices a pair may sum over", e.loc, "" if v == "ok" else f"wrong for an index with {fmt_env(ce)}")
        ctx.ok(R, "DynamicProgramming: indices of a pair", e.loc)


def r_dp_single(ctx):
    R = "dynamic programming single-term sums"
    fq = "paths._dp_parse_out_single_term_ops"
    r = ctx.run(fq)
    ps = r.params
    need = ("inputs", "all_inds", "ind_counts")
    if any(n not in ps for n in need):
        raise Undecided("other parameters")
    where = ctx.p.fn(fq).loc
    apps = [e for e in r.evs("mutate") if e.op == "append"]
    red = [e for e in apps if e.args[0].op == "bin" and e.args[0].a[0] == "-" and e.args[0].a[1] is mk("elem", ps["inputs"], 0)]
    if not red:
        ret = r.eng.freeze(r.ret, r.state)
        for t in subterms(ret):
            if t.op == "bin" and t.a[0] == "-" and t.a[1] is mk("elem", ps["inputs"], 0):
                single = t.a[2]
                break
        else:
            raise Undecided("reduced term not recognised")
    else:
        single = red[0].args[0].a[2]
    t = strip(single)
    if t.op != "comp" or len(t.a[2]) != 1:
        raise Undecided("set of single indices " + show(t, 4))
    cnts = [x for x in subterms(t.a[3]) if x.op == "idx" and x.a[0] is ps["ind_counts"]]
    if not cnts:
        raise Undecided("condition " + show(t.a[3], 4))
    bad = None
    for c in range(1, 5):
        v = truth_of(t.a[3], {}, numleaf(lambda x: c if x in cnts else None))
        if v != (c == 1):
            bad = f"an index occurring {c} time(s) is {'summed' if v else 'not summed'} on its own"
            break
    ctx.put(bad is None, R, "_dp_parse_out_single_term_ops: indices summed on their own", where, bad or "")
    # the occurrences counted include the output
    r2 = ctx.run("paths.DynamicProgramming.__call__", public=True,
                 opaque={"paths._parse_minimize", "paths._tree_to_sequence", "helpers.compute_size_by_dict",
                         "paths._find_disconnected_subgraphs", "paths._dp_parse_out_single_term_ops"})
    pn = list(r2.params)
    for e in r2.evs("call"):
        if e.callee is mk("func", fq):
            sig = ctx.p.fn(fq).params()
            k = sig.index("ind_counts")
            cn = e.args[k] if k < len(e.args) else None
            if cn is None:
                continue
            hasout = contains(cn, r2.params[pn[2]])
            hasin = contains(cn, r2.params[pn[1]])
            ctx.put(hasout and hasin, R, "DynamicProgramming: occurrences counted", e.loc,
                    "" if hasout and hasin else "output occurrences are not counted, so output indices can be summed away")


def check(ctx):
    ctx.rule("path-step index sets", r_find_contraction)
    ctx.rule("pairwise result of the searches", r_k12)
    ctx.rule("greedy candidate result", r_candidate)
    ctx.rule("greedy reference counts", r_refcounts)
    ctx.rule("greedy reference tables", r_greedy_tables)
    ctx.rule("greedy bookkeeping of holders", r_greedy_maintenance)
    ctx.rule("dynamic programming legs", r_dp_legs)
    ctx.rule("dynamic programming pair", r_dp_call)
    ctx.rule("dynamic programming single-term sums", r_dp_single)
