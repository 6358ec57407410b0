"""C12: an ellipsis stands for the trailing dimensions, aligned from the right across operands and output."""
from sa.engine import is_call, mcall
from sa.kit import Undecided, numleaf, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import TRUE, const, contains, cval, is_const, mk, subterms
from .c07 import reachable
from .common import Fails, cases, pointeval

DESC = ("Each replacement of an ellipsis is read as (number of dimensions, slice of the pool of new symbols). The number is evaluated over ranks and subscript lengths and compared with "
        "rank - named indices; the slice over the sign classes of that number (nothing for none, the last k for k); the output's number must be the running maximum over operands; "
        "implicit outputs are the ellipsis dimensions followed by the indices that occur once, sorted.")
FQ = "parser.parse_einsum_input"
OP = frozenset({"parser.get_symbol", "parser.gen_unused_symbols", "parser.find_output_str", "parser.convert_interleaved_input", "parser.get_shape"})


def setup(ctx):
    return ctx.run(FQ, public=True, opaque=OP)


def pool_of(t):
    """the string (or list) of new symbols a term slices, or None"""
    if t.op == "join" and is_const(t.a[0], ""):
        t = t.a[1]
    t = strip(t)
    return t if is_call(t, "parser.gen_unused_symbols") else None


def neg_of(t):
    """k for -k"""
    if t.op == "neg":
        return t.a[0]
    if t.op == "bin" and t.a[0] == "-" and is_const(t.a[1], 0):
        return t.a[2]
    if t.op == "const" and isinstance(cval(t), int):
        return const(-cval(t))
    return None


def take(v):
    """('none',) / ('last', k, exact at 0) / ('first', k) / ('all',) / None: what a replacement takes from the pool"""
    if is_const(v, ""):
        return ("none",)
    if v.op == "join" and v.a[1].op == "idx":
        v = v.a[1]
    if pool_of(v) is not None:
        return ("all",)
    if v.op == "idx" and v.a[1].op == "slice" and pool_of(v.a[0]) is not None:
        lo, hi, st = v.a[1].a
        if not is_const(st, None):
            return None
        if is_const(hi, None) and not is_const(lo, None):
            k = neg_of(lo)
            if k is not None:
                return ("last", k, False)
            # pool[len(pool) - k:]
            if lo.op == "bin" and lo.a[0] == "-" and is_call(lo.a[1], "builtins.len") and pool_of(lo.a[1].a[1][0]) is not None:
                return ("last", lo.a[2], True)
            if lo.op == "add":
                for p, q in ((lo.a[0], lo.a[1]), (lo.a[1], lo.a[0])):
                    if is_call(p, "builtins.len") and neg_of(q) is not None:
                        return ("last", neg_of(q), True)
            return None
        if is_const(lo, None) or is_const(lo, 0):
            return ("first", hi)
    return None


def replacements(r):
    """[(event, receiver, replacement term)] of every s.replace('...', X)"""
    out = []
    for e in r.events:
        if e.kind == "call" and e.name == "replace" and len(e.args) == 2 and is_const(e.args[0], "..."):
            out.append((e, e.recv, e.args[1]))
    return out


def split_parts(r):
    ins, outs = [], []
    for e, recv, x in replacements(r):
        if recv.op == "elem" or recv.op == "idx" and recv.a[0].op == "elem" or recv.op == "idx" and recv.a[1].op in ("pos",):
            ins.append((e, recv, x))
        else:
            outs.append((e, recv, x))
    return ins, outs


# ---------------------------------------------------------------- operands
def counts(xs):
    ks = {}
    for e, recv, x in xs:
        for lits, v in cases(x):
            t = take(v)
            if t and t[0] in ("last", "first"):
                ks.setdefault(t[1], e)
    return ks


def kinds(K):
    """the count and what it is computed from when the operand has dimensions"""
    return {K} | {v for _, v in cases(K) if v.op != "const"}


def has_dims(c, env):
    if c.op == "cmp" and c.a[0] == "eq" and any(x.op == "tup" and not x.a for x in c.a[1:]):
        return False
    return None


def classes(ctx, R, name, xs, K, others=has_dims):
    """what is taken for each class of the count"""
    for k in (0, 1, 3):
        def val(t, k=k):
            return k if t in kinds(K) else None
        lf = numleaf(val, others)
        got = []
        for e, recv, x in xs:
            g = reachable(e.facts, lf)
            if g is False:
                continue
            alts = []
            for lits, v in cases(x):
                ok = True
                for c, pos in lits:
                    try:
                        if truth_of(c, None, lf) != pos:
                            ok = False
                    except Undecided:
                        ok = None if ok else ok
                if ok is not False:
                    alts.append((v, ok and g))
            got += [(e, v, g2) for v, g2 in alts]
        if not got:
            ctx.unk(R, f"{name}: {k} dimensions", "", "no replacement")
            continue
        for e, v, sure in got:
            t = take(v)
            loc = e.loc
            if t is None:
                ctx.unk(R, f"{name}: {k} dimensions", loc, show(v, 4))
            elif k == 0:
                good = t[0] == "none" or t[0] == "last" and t[1] is K and t[2] or t[0] == "first" and t[1] is K
                bad = t[0] == "all" or (t[0] == "last" and t[1] is K and not t[2])
                ctx.put(True if good else False if bad and sure else None, R, f"{name}: an ellipsis for no dimensions disappears", loc,
                        "with no dimensions left, the slice [-0:] is the whole pool" if t[0] == "last" else "takes " + show(v, 3))
            else:
                good = t[0] == "last" and t[1] is K
                bad = t[0] in ("none", "first", "all")
                ctx.put(True if good else False if bad and sure else None, R, f"{name}: an ellipsis takes the last symbols of the pool", loc,
                        f"for {k} dimensions it takes {'nothing' if t[0] == 'none' else 'the first symbols, which aligns dimensions from the left' if t[0] == 'first' else 'the whole pool'}")


def r_operands(ctx):
    R = "operands"
    r = setup(ctx)
    ins, outs = split_parts(r)
    if not ins:
        raise Undecided("no ellipsis is replaced in the operands")
    ks = counts(ins)
    if not ks:
        raise Undecided("number of dimensions of an ellipsis")
    if len(ks) != 1:
        ctx.unk(R, "one count", ins[0][0].loc, "several counts")
        return
    K, e0 = next(iter(ks.items()))
    classes(ctx, R, "operand", ins, K)
    # the count: dimensions that are not named
    sub = ins[0][1]
    for d in (0, 1, 2, 3, 4):
        for named in (0, 1, 2):
            shapes = set()

            def val(t, d=d, named=named):
                if is_call(t, "builtins.len") and len(t.a[1]) == 1:
                    y = t.a[1][0]
                    if y is sub:
                        return named + 3
                    if mcall(y, "replace") is not None and y.a[0].a[0] is sub and is_const(y.a[1][1], ""):
                        return named
                    if y.op == "idx" or y.op == "elem" or y.op == "call":
                        shapes.add(y)
                        return d
                if t.op == "attr" and t.a[1] == "ndim":
                    return d
                return None

            def more(c, env, d=d):
                if c.op == "cmp" and c.a[0] == "eq" and any(x.op == "tup" and not x.a for x in c.a[1:]):
                    return d == 0
                return None
            try:
                v = evalk(K, val, more)
            except Undecided as u:
                ctx.unk(R, "how many dimensions an ellipsis stands for", e0.loc, str(u))
                return
            want = d - named
            okk = v == want or (want < 0 and d == 0 and v <= 0)
            ctx.put(okk, R, "how many dimensions an ellipsis stands for", e0.loc, f"{v} for an operand of {d} dimensions with {named} named indices")
            for y in shapes:
                seq = sub.a[0] if sub.op == "elem" else None
                if y.op == "idx" and y.a[1].op == "pos" and seq is not None:
                    if y.a[1].a[0] is not seq and not contains(y.a[1].a[0], seq) and strip(y.a[1].a[0]) is not strip(seq):
                        ctx.unk(R, "the operand's own shape", e0.loc, show(y, 3))
                elif y.op == "idx" and y.a[1].op == "const":
                    ctx.bad(R, "the operand's own shape", e0.loc, "the shape of one fixed operand is used: " + show(y, 3))
    # too many named indices
    def val(t):
        return -1 if t in kinds(K) else None
    lf = numleaf(val, has_dims)
    rep = [reachable(e.facts, lf) for e, recv, x in ins]
    ctx.put(False if True in rep else None if None in rep else True, R, "more named indices than dimensions are refused", e0.loc, "the ellipsis is replaced although the operand has too few dimensions")


def evalk(t, val, more):
    lf = numleaf(val, more)
    v = val(t)
    if v is not None:
        return v
    if t.op == "const" and isinstance(cval(t), int):
        return cval(t)
    if t.op == "phi":
        return evalk(t.a[1] if truth_of(t.a[0], None, lf) else t.a[2], val, more)
    if t.op in ("add", "bin", "call", "neg"):
        if t.op == "add":
            return sum(evalk(x, val, more) for x in t.a)
        if t.op == "neg":
            return -evalk(t.a[0], val, more)
        if t.op == "bin" and t.a[0] == "-":
            return evalk(t.a[1], val, more) - evalk(t.a[2], val, more)
        if is_call(t, "builtins.max", "builtins.min") and len(t.a[1]) >= 2:
            f = max if is_call(t, "builtins.max") else min
            return f(evalk(x, val, more) for x in t.a[1])
    raise Undecided("number " + show(t, 5))


# ---------------------------------------------------------------- output
def r_output(ctx):
    R = "output"
    r = setup(ctx)
    ins, outs = split_parts(r)
    ks = counts(ins)
    if len(ks) != 1:
        raise Undecided("number of dimensions of an ellipsis")
    K = next(iter(ks))
    if not outs:
        raise Undecided("no ellipsis is replaced in the output")
    ko = counts(outs)
    if not ko and all(take(v) == ("all",) for e, recv, x in outs for _, v in cases(x)):
        size = [s.a[1][1] for e, recv, x in outs for s in subterms(x) if is_call(s, "parser.gen_unused_symbols") and len(s.a[1]) == 2]
        if size and all(is_call(s, "builtins.max") for s in size):
            ctx.bad(R, "the output's ellipsis is the longest of the operands", outs[0][0].loc, "it takes the whole pool of " + show(size[0], 4) + " symbols")
            return
    if len(ko) != 1:
        raise Undecided("number of dimensions of the output's ellipsis")
    L, e0 = next(iter(ko.items()))
    classes(ctx, R, "output", outs, L)
    if L.op == "out":
        lp = r.eng.loops[L.a[0]]
        m = next((m for m, s in lp.step.items() if s is L.a[2]), None)
        if m is None:
            raise Undecided("longest ellipsis")
        ini = lp.init.get(m)
        ctx.put(None if ini is None or ini.op != "const" or not isinstance(cval(ini), int) else cval(ini) <= 0, R, "the longest ellipsis starts from none", e0.loc, "starts from " + show(ini))
        for a, b in ((0, 0), (0, 1), (1, 2), (2, 1), (3, 1)):
            def val(t, a=a, b=b):
                return a if t is m else b if t in kinds(K) else None

            def more(c, env):
                if c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1], ".") or c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1], "..."):
                    return True
                return has_dims(c, env)
            try:
                v = evalk(lp.step[m], val, more)
            except Undecided as u:
                ctx.unk(R, "the output's ellipsis is the longest of the operands", e0.loc, str(u))
                return
            ctx.put(v == max(a, b), R, "the output's ellipsis is the longest of the operands", e0.loc, f"after {a} and an operand with {b} it is {v}")
    elif L.op == "fold" and str(L.a[0]).endswith("max") and L.a[2] is K:
        ctx.put(L.a[1].op == "const" and cval(L.a[1]) <= 0, R, "the longest ellipsis starts from none", e0.loc, "starts from " + show(L.a[1]))
        ctx.ok(R, "the output's ellipsis is the longest of the operands", e0.loc)
    elif L.op == "fold" and str(L.a[0]).endswith("min"):
        ctx.bad(R, "the output's ellipsis is the longest of the operands", e0.loc, show(L, 4))
    elif is_call(L, "builtins.max"):
        ctx.ok(R, "the output's ellipsis is the longest of the operands", e0.loc)
    elif is_call(L, "builtins.min") or L is K:
        ctx.bad(R, "the output's ellipsis is the longest of the operands", e0.loc, show(L, 4))
    else:
        ctx.unk(R, "the output's ellipsis is the longest of the operands", e0.loc, show(L, 4))
    # implicit output
    X = outs[0][2]
    n = 0
    for t in {e.value for e in r.events if e.kind == "augassign"} | {s for e in r.events if e.kind == "return" for s in subterms(e.value)}:
        if t.op != "add" or not any(is_const(x, "->") for x in t.a):
            continue
        k = next(i for i, x in enumerate(t.a) if is_const(x, "->"))
        tail = list(t.a[k + 1:])
        if not tail or any(contains(x, lambda u: mcall(u, "replace") is not None and len(u.a[1]) == 2 and is_const(u.a[1][0], "...")) and not contains(x, lambda u: is_call(u, "parser.find_output_str")) for x in tail):
            continue
        n += 1
        rest = [x for x in tail if x is not X]
        if X not in tail:
            dots = any(is_const(x, "...") for x in tail)
            # the default of an equation whose ellipses, if any, are already written out
            done = lambda u: u.op == "phi" and contains(u.a[0], const("."))
            if all(is_call(x, "parser.find_output_str") and contains(x, done) for x in tail):
                n -= 1
                continue
            ctx.put(None if any(take(v) is not None for x in tail for _, v in cases(x)) or dots else False, R, "an implicit output has the ellipsis dimensions", outs[0][0].loc, "output " + show(mk("add", *tail), 4) if len(tail) > 1 else show(tail[0], 4))
            continue
        ctx.put(tail[0] is X, R, "an implicit output starts with the ellipsis dimensions", outs[0][0].loc, "output " + show(mk("add", *tail), 4))
        for x in rest:
            y = x.a[1] if x.op == "join" and is_const(x.a[0], "") else x
            srt = is_call(y, "builtins.sorted") and not y.a[2]
            inner = strip(y)
            fo = [u for u in subterms(inner) if is_call(u, "parser.find_output_str")]
            if not fo:
                ctx.unk(R, "the other indices of an implicit output", outs[0][0].loc, show(x, 4))
                continue
            gone = inner.op == "bin" and inner.a[0] == "-" and contains(inner.a[2], X) or inner.op == "comp" and contains(inner.a[3], X)
            keepall = inner is fo[0]
            ctx.put(True if gone else False if keepall else None, R, "ellipsis dimensions are not repeated in an implicit output", outs[0][0].loc, show(x, 4))
            plain = inner.op == "comp" and contains(inner.a[2][0], fo[0]) and not contains(inner.a[2][0], lambda u: is_call(u, "builtins.set", "builtins.frozenset"))
            ctx.put(True if srt or plain else False if inner.op == "bin" else None, R, "the other indices of an implicit output are in order", outs[0][0].loc, show(x, 4))
    if not n:
        ctx.unk(R, "implicit output", outs[0][0].loc, "not found")


# ---------------------------------------------------------------- default output
def r_default(ctx):
    R = "default output"
    fq = "parser.find_output_str"
    r = ctx.run(fq, public=True)
    t = r.eng.freeze(r.ret, r.state)
    src = r.params[ctx.p.fn(fq).params()[0]]
    loc = ctx.p.fn(fq).loc
    y = t.a[1] if t.op == "join" and is_const(t.a[0], "") else t
    srt = 0
    while is_call(y, "builtins.sorted"):
        srt = 1 if not y.a[2] else None
        y = y.a[1][0]
    if y.op != "comp" or len(y.a[2]) != 1 or y.a[1] is not mk("elem", y.a[2][0], 0):
        raise Undecided("default output " + show(t, 4))
    it = y.a[2][0]
    dedup = False
    while True:
        if is_call(it, "builtins.sorted"):
            srt = srt or (1 if not it.a[2] else None)
            it = it.a[1][0]
        elif is_call(it, "builtins.set", "builtins.frozenset"):
            dedup = True
            it = it.a[1][0]
        else:
            break
    ctx.put(True if srt == 1 else False if srt == 0 else None, R, "indices are sorted", loc, "the order of the result is not alphabetical")
    x = y.a[1]
    for n in (1, 2, 3):
        def val(u, n=n):
            c = mcall(u, "count")
            return n if c is not None and u.a[1] and u.a[1][0] is x else None
        try:
            k = truth_of(y.a[3], None, numleaf(val, lambda c, env: False if c.op == "cmp" and c.a[0] in ("in", "eq") and c.a[1] is x and c.a[2].op == "const" else None))
        except Undecided as u:
            ctx.unk(R, "kept exactly if it occurs once", loc, str(u))
            return
        ctx.put(k == (n == 1), R, "kept exactly if it occurs once", loc, f"an index that occurs {n} times is {'kept' if k else 'dropped'}")
    # punctuation
    base = it
    comma = False
    while mcall(base, "replace") is not None and len(base.a[1]) == 2 and is_const(base.a[1][1], ""):
        comma = comma or is_const(base.a[1][0], ",")
        base = base.a[0].a[0]
    sub = contains(y.a[3], const(","))
    ctx.put(True if base is src and (comma or sub) else False if base is src and not contains(y.a[3], lambda u: u.op == "const" and isinstance(cval(u), str)) else None, R,
            "separators are not indices", loc, "a single comma is taken for an index that occurs once")


# ---------------------------------------------------------------- not optimized
def r_direct(ctx):
    R = "unoptimized contraction"
    conv = mk("func", "parser.convert_to_valid_einsum_chars")
    r = ctx.run("contract._einsum", opaque=OP | {"parser.convert_to_valid_einsum_chars", "parser.has_valid_einsum_chars_only", "backends.dispatch.get_func", "contract._filter_einsum_defaults"})
    for e in r.events:
        if e.kind == "call" and e.callee is conv and e.args:
            for lits, v in cases(e.args[0]):
                arrow = None
                dots = None
                for c, pos in lits:
                    if c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1], "->"):
                        arrow = pos
                    if c.op == "cmp" and c.a[0] == "in" and c.a[1].op == "const" and cval(c.a[1]) in ("...", "."):
                        dots = pos
                if arrow is not False:
                    continue
                if v.op != "add" or not any(is_const(x, "->") for x in v.a):
                    ctx.unk(R, "implicit output", e.loc, show(v, 4))
                    continue
                tail = v.a[next(i for i, x in enumerate(v.a) if is_const(x, "->")) + 1:]
                if any(x.op == "phi" for x in tail):
                    p = next(x for x in tail if x.op == "phi")
                    okk = p.a[0].op == "cmp" and p.a[0].a[0] == "in" and p.a[0].a[1].op == "const" and cval(p.a[0].a[1]) in ("...", ".") and is_const(p.a[1], "...") and is_const(p.a[2], "")
                    ctx.put(okk or None, R, "an implicit output has the ellipsis dimensions", e.loc, show(v, 5))
                    if okk:
                        ctx.put(tail[0] is p, R, "an implicit output starts with the ellipsis dimensions", e.loc, show(v, 5))
                elif dots is True:
                    ctx.put(is_const(tail[0], "..."), R, "an implicit output starts with the ellipsis dimensions", e.loc, show(v, 5))
                elif dots is None and not any(is_const(x, "...") for x in tail) and not any(contains(x, lambda u: is_const(u, "...")) for x in tail):
                    ctx.bad(R, "an implicit output has the ellipsis dimensions", e.loc, "the output has no ellipsis: " + show(v, 4))


def once(s):
    s = s.replace(",", "")
    return "".join(sorted(c for c in set(s) if s.count(c) == 1))


def r_direct_points(ctx):
    """the equation the library gets without optimization, at single equations"""
    R = "unoptimized contraction"
    r = ctx.run("contract._einsum", opaque=OP | {"parser.convert_to_valid_einsum_chars", "parser.has_valid_einsum_chars_only", "backends.dispatch.get_func", "contract._filter_einsum_defaults"})
    ops = r.params.get("operands")
    first = mk("idx", ops, const(0)) if ops is not None else None
    calls = [e for e in r.events if e.kind == "call" and is_call(e.callee, "backends.dispatch.get_func")]
    if not calls or first is None:
        raise Undecided("the library's call")
    fns = {"parser.find_output_str": once, "parser.has_valid_einsum_chars_only": lambda x: all(c in ",->." or c.isascii() and c.isalpha() for c in x),
           "parser.convert_to_valid_einsum_chars": lambda x: "renamed " + x}
    for eq, want in (("ab,bc->ac", {"ab,bc->ac"}), ("ab, bc -> ac", {"ab,bc->ac"}), ("ab,bc", {"ab,bc", "ab,bc->ac"}), ("\u00e4b,bc->\u00e4c", {"renamed \u00e4b,bc->\u00e4c"}),
                     ("\u00e4b,bc", {"renamed \u00e4b,bc->c\u00e4"}), ("...\u00e4b,bc", {"renamed ...\u00e4b,bc->...c\u00e4"}), ("\u00e4\u00f6,\u00f6\u00e4", {"renamed \u00e4\u00f6,\u00f6\u00e4->"})):
        def val(u):
            return eq if u is first else None

        def leaf(c, env):
            if c.op == "isinstance" and c.a[0] is first:
                return True
            return None
        name = "equation " + eq.encode("ascii", "backslashreplace").decode()
        got = []
        try:
            for e in calls:
                if all(pointeval(f, val, leaf, fns=fns) for f in e.facts if contains(f, first)):
                    if not e.args or e.args[0].op == "star":
                        got.append(eq.replace(" ", ""))
                    else:
                        got.append(pointeval(e.args[0], val, leaf, fns=fns))
        except Fails as ex:
            ctx.bad(R, name, calls[0].loc, "fails: " + str(ex))
            continue
        except Undecided as ex:
            ctx.unk(R, name, calls[0].loc, str(ex))
            continue
        # always renaming is no error
        okk = len(got) == 1 and got[0].replace(" ", "") in {w.replace(" ", "") for w in want} | {"renamed" + w for w in want if "->" in w}
        ctx.put(okk, R, name, calls[0].loc, "the library is given " + ", ".join(ascii(g) for g in got))
    # operands and index lists
    for e in calls:
        reach = reachable([f for f in e.facts if contains(f, first)], lambda c, env: False if c.op == "isinstance" and c.a[0] is first else None)
        if reach is False or not e.args:
            continue
        bad = contains(e.args[0], lambda u: mcall(u, "replace") is not None and mcall(u, "replace") is first)
        ctx.put(False if reach and bad else True if reach and e.args[0].op == "star" and strip(e.args[0].a[0]) is ops else None, R, "operands with index lists are passed as they are", e.loc,
                "the first operand is treated as an equation")


def check(ctx):
    ctx.rule("operands", r_operands)
    ctx.rule("output", r_output)
    ctx.rule("default output", r_default)
    ctx.rule("unoptimized contraction", r_direct)
    ctx.rule("unoptimized contraction", r_direct_points)
