"""C07: the matrix-multiplication route computes the same step as einsum."""
import itertools

from sa.engine import is_call, mcall
from sa.kit import Undecided, member, numeval, numleaf, phis, show, strip, truth_of
from sa.terms import FALSE, NONE, TRUE, const, contains, cval, is_const, mk, subst, subterms
from .common import Fails, cases, pointeval
from .plan import CP_OPAQUE, Exec, Plan, order_of

DESC = ("Index-class tables over value-flow terms: the eligibility test is evaluated for one arbitrary index in every class (occurrences in "
        "the left and right term, kept or summed, equal or different sizes) with all other indices harmless; the axes handed to tensordot must pair the "
        "positions of one and the same index in the left and in the right term; the permutation afterwards must map the tensordot layout to the "
        "requested one on every path; options given to einsum must exclude the route.")


# ---------------------------------------------------------------- eligibility
class Cls:
    def __init__(self, nl, nr, kept, dims=(5, 5), ninputs=2):
        self.nl, self.nr, self.kept, self.dims, self.ninputs = nl, nr, kept, dims, ninputs
        self.same = dims[0] == dims[1]

    def harmful(self):
        if self.ninputs != 2:
            return f"{self.ninputs} operands"
        if self.nl > 1 or self.nr > 1:
            return "an index repeated within one operand"
        if self.nl and self.nr and self.kept:
            return "an index of both operands that is kept (batch index)"
        if self.nl + self.nr == 1 and not self.kept:
            return "an index of one operand only that is summed"
        if self.nl and self.nr and not self.same:
            return "a contracted index whose sizes differ (broadcast)"
        return None


BENIGN = [Cls(1, 1, False), Cls(1, 0, True), Cls(0, 1, True)]


class Free(Exception):
    """a condition about the other indices: both outcomes are possible"""


class Elig:
    def __init__(self, ctx):
        self.r = ctx.run("blas.can_blas", public=True)
        ps = ctx.p.fn("blas.can_blas").params()
        if len(ps) < 4:
            raise Undecided("can_blas takes " + ", ".join(ps))
        P = self.r.params
        self.inputs, self.result, self.removed, self.shapes = (P[p] for p in ps[:4])
        self.where = ctx.p.fn("blas.can_blas").loc

    def term_no(self, t):
        if t.op == "idx" and t.a[0] is self.inputs and t.a[1].op == "const" and cval(t.a[1]) in (0, 1, -1, -2):
            return cval(t.a[1]) % 2
        return None

    def set_atom(self, c):
        def atom(t):
            if t.op == "truth":
                return None
            k = self.term_no(t)
            if k is not None:
                return lambda env: (c.nl, c.nr)[k] > 0
            if t is self.result:
                return lambda env: c.kept
            if t is self.removed:
                return lambda env: not c.kept
            if t.op == "idx" and t.a[0].op == "comp" and len(t.a[0].a[2]) == 1 and t.a[0].a[2][0] is self.inputs and t.a[1].op == "const":
                e = mk("elem", self.inputs, 0)
                return atom_of(subst(t.a[0].a[1], {e: mk("idx", self.inputs, t.a[1])}))
            return None

        def atom_of(t):
            return lambda env: member(t, env, atom)
        return atom

    def count(self, t, c, e):
        """occurrences of the index in a term"""
        b = mcall(t, "count")
        if b is not None and len(t.a[1]) == 1 and t.a[1][0] is e:
            return self.cnt_of(b, c)
        if t.op == "idx" and t.a[1] is e and is_call(t.a[0], "collections.Counter"):
            return self.cnt_of(t.a[0].a[1][0], c)
        if t.op == "get" and t.a[1] is e and is_call(t.a[0], "collections.Counter"):
            return self.cnt_of(t.a[0].a[1][0], c)
        return None

    def cnt_of(self, b, c):
        k = self.term_no(b)
        if k is not None:
            return (c.nl, c.nr)[k]
        if b.op == "add":
            xs = [self.cnt_of(x, c) for x in b.a]
            return None if None in xs else sum(xs)
        if b is self.result:
            return int(c.kept)
        if b.op == "join":
            xs = [self.cnt_of(x, c) for x in b.a[1:]]
            return None if None in xs else sum(xs)
        if strip(b) is self.inputs:
            return c.nl + c.nr
        return None

    def dim(self, t, e):
        """(operand, well-formed): a size read from the shapes"""
        if t.op == "idx" and t.a[0].op == "idx" and t.a[0].a[0] is self.shapes and t.a[0].a[1].op == "const":
            k = cval(t.a[0].a[1]) % 2
            b = mcall(t.a[1], "find", "index")
            if b is not None and t.a[1].a[1] and t.a[1].a[1][0] is e:
                j = self.term_no(b)
                if j is not None:
                    return k, j == k
        if t.op == "idx" and t.a[1] is e and is_call(t.a[0], "builtins.dict") and t.a[0].a[1] and is_call(t.a[0].a[1][0], "builtins.zip"):
            z = t.a[0].a[1][0].a[1]
            if len(z) == 2 and z[1].op == "idx" and z[1].a[0] is self.shapes and self.term_no(z[0]) is not None and z[1].a[1].op == "const":
                return cval(z[1].a[1]) % 2, self.term_no(z[0]) == cval(z[1].a[1]) % 2
        return None

    def leaf(self, c, e=None):
        def val(t):
            if is_call(t, "builtins.len") and t.a[1][0] is self.inputs:
                return c.ninputs
            if is_call(t, "builtins.len") and len(t.a[1]) == 1:
                try:
                    m = int(member(t.a[1][0], None, self.set_atom(c)))
                    if any(member(t.a[1][0], None, self.set_atom(b)) for b in BENIGN):
                        raise Free()
                    return m
                except Undecided:
                    pass
            if e is not None:
                d = self.dim(t, e)
                if d is not None:
                    if not d[1]:
                        raise Free()
                    return c.dims[d[0]]
            if e is not None:
                n = self.count(t, c, e)
                if n is not None:
                    return n
                if is_call(t, "builtins.int", "builtins.bool") and len(t.a[1]) == 1:
                    return int(truth_of(t.a[1][0], None, lf))
            if t.op == "cmp" and t.a[0] == "in" and e is not None and t.a[1] is e:
                return int(member(t.a[2], None, self.set_atom(c)))
            return None

        num = numleaf(val)

        def setval(t):
            """truth of a set-valued condition: the one index, or any harmless other one"""
            if member(t, None, self.set_atom(c)):
                return True
            if any(member(t, None, self.set_atom(b)) for b in BENIGN):
                raise Free()
            return False

        def lf(t, env):
            if t.op == "cmp" and t.a[0] == "is" and is_const(t.a[2], None) and t.a[1] is self.shapes:
                return False
            if t is self.shapes:
                return True
            if t.op == "any":
                return self.any(t, c, e)
            if t.op == "cmp" and t.a[0] == "in" and t.a[2] is not None and e is not None and t.a[1] is e:
                return member(t.a[2], None, self.set_atom(c))
            if t.op == "cmp" and t.a[0] == "eq":
                a, b = t.a[1], t.a[2]
                ka, kb = self.term_no(a), self.term_no(b)
                if ka is not None and kb is not None and ka != kb:
                    if c.nl != c.nr:
                        return False
                    raise Free()
                sa, sb = self.sliced(a), self.sliced(b)
                if sa is not None and sb is not None:
                    raise Free()
                try:
                    ma, mb = member(a, None, self.set_atom(c)), member(b, None, self.set_atom(c))
                    if ma != mb:
                        return False
                    raise Free()
                except Undecided:
                    pass
            v = None
            try:
                v = num(t, env)
            except Undecided:
                v = None
            if v is not None:
                return v
            if t.op in ("not", "and", "or", "const") or (t.op == "phi"):
                return None
            if mcall(t, "isdisjoint") is not None:
                x = mk("bin", "&", mcall(t, "isdisjoint"), t.a[1][0])
                return not setval(x)
            try:
                return setval(t)
            except Undecided:
                return None
        return lf

    def sliced(self, t):
        if t.op == "idx" and t.a[1].op == "slice":
            return self.term_no(t.a[0])
        return None

    def any(self, t, c, outer):
        cond, its = t.a[0], t.a[1:]
        if len(its) != 1:
            raise Undecided("condition " + show(t, 4))
        it = its[0]
        if strip(it) is self.inputs or (it.op == "tup" and all(self.term_no(x) is not None for x in it.a)):
            parts = it.a if it.op == "tup" else (mk("idx", self.inputs, const(0)), mk("idx", self.inputs, const(1)))
            el = mk("elem", it, 0)
            out = False
            for p in parts:
                if truth_of(subst(cond, {el: p}), None, self.leaf(c, outer)):
                    out = True
            return out
        src = it
        el = mk("elem", it, 0)
        if is_call(it, "builtins.enumerate"):
            src = it.a[1][0]
            el = mk("elem", src, 0)
        if not member(src, None, self.set_atom(c)):
            return False
        return truth_of(cond, None, self.leaf(c, el))

    def outcomes(self, c):
        """every value can_blas may return when one index is of class c and all others are harmless"""
        out = []

        def go(t, depth=0):
            if depth > 60:
                raise Undecided("too many gates")
            if t.op != "phi":
                out.append(t)
                return
            try:
                v = truth_of(t.a[0], None, self.leaf(c))
            except Free:
                go(t.a[1], depth + 1)
                go(t.a[2], depth + 1)
                return
            go(t.a[1] if v else t.a[2], depth + 1)
        go(self.r.eng.freeze(self.r.ret, self.r.state))
        return out


def r_eligible(ctx):
    R = "eligibility"
    g = Elig(ctx)
    rows = [Cls(nl, nr, kept, dims) for nl, nr in itertools.product(range(3), repeat=2) if nl + nr for kept in (False, True)
            for dims in (((5, 5), (1, 5), (5, 1)) if nl and nr and not kept else ((5, 5),))]
    rows += [Cls(1, 1, False, (5, 5), n) for n in (1, 3)]
    for c in rows:
        why = c.harmful()
        if why is None:
            continue
        name = f"left x{c.nl}, right x{c.nr}, {'kept' if c.kept else 'summed'}, sizes {c.dims[0]} and {c.dims[1]}, {c.ninputs} operands"
        try:
            vals = g.outcomes(c)
        except Undecided as ex:
            ctx.unk(R, name, g.where, str(ex))
            continue
        bad = [v for v in vals if not (v.op == "const" and not cval(v))]
        ctx.put(not bad, R, name, g.where, f"{why} still selects the matrix route ({show(bad[0], 3) if bad else ''})")


def r_inputs(ctx):
    R = "what the test is given"
    pl = Plan(ctx)
    t = pl.field("blas")
    uses = pl.r.params.get("use_blas")
    calls = [e for e in pl.r.events if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == "blas.can_blas"]
    if len(calls) != 1:
        raise Undecided(f"{len(calls)} calls of can_blas")
    e = calls[0]
    ps = ctx.p.fn("blas.can_blas").params()
    args = dict(zip(ps, e.args))
    args.update(dict(e.kws))
    # use_blas=False disables the route
    def off(lits, v):
        """not taken, or false, when use_blas is false"""
        lf = numleaf(lambda u: None, lambda c, env: False if c is uses else None)
        for c, p in lits:
            try:
                if truth_of(c, {}, lf) != p:
                    return True
            except Undecided:
                pass
        if is_const(v, False, None):
            return True
        try:
            return not truth_of(v, {}, lf)
        except Undecided:
            return False
    bad = [v for lits, v in cases(t) if not off(lits, v)]
    ctx.put(not bad, R, "use_blas=False disables the route", e.loc, "the route is chosen even if use_blas is false")
    fc = pl.fc
    x = args.get(ps[2])
    ctx.put(True if x is not None and strip(x) is mk("idx", fc, const(2)) else False if x is not None and x.op == "idx" and x.a[0] is fc else None, R,
            "summed indices", e.loc, "the test is given " + (show(x, 3) if x is not None else "nothing") + " as summed indices")
    x = args.get(ps[1])
    ok = True
    out = next((u for u in subterms(pl.tup) if u.op == "idx" and is_call(u.a[0], "parser.parse_einsum_input") and is_const(u.a[1], 1)), None)
    for lits, v in cases(x) if x is not None else []:
        inner = v
        if v.op == "join" and len(v.a) == 2:
            inner = strip(v.a[1])
        if inner is mk("idx", fc, const(0)):
            continue
        if v is out and out is not None:
            if not any(contains(c, lambda u: u.op == "pos") for c, p in lits):
                ok = False
            continue
        ok = False if inner.op == "idx" and inner.a[0] is fc else (None if ok else ok)
    ctx.put(ok, R, "kept indices", e.loc, "the test is given " + (show(x, 3) if x is not None else "nothing") + " as kept indices")
    # operand terms and shapes, taken at the same positions of lists kept in step
    ti, ts = args.get(ps[0]), args.get(ps[3])
    if ts is None or is_const(ts, None):
        ctx.bad(R, "sizes", e.loc, "the sizes of the operands are not passed, so indices of different sizes would be contracted by the matrix route")
    else:
        ok = None
        (ri, ci), (rs, cs) = rev(ti), rev(ts)
        if ci is not None and ci.op == "comp" and cs.op == "comp" and ci.a[1].op == "take" and cs.a[1].op == "take":
            oi, bi = order_of(ci.a[2][0])
            os_, bs = order_of(cs.a[2][0])
            if bi is bs and oi is not None and os_ is not None:
                ok = (oi == os_) == (ri == rs)
        ctx.put(ok, R, "sizes", e.loc, "operand terms and operand shapes are listed in different orders")
        recorded_shape(ctx, R, pl, ti, ts, e.loc)


def recorded_shape(ctx, R, pl, ti, ts, loc):
    """the shape listed for a result is made of the shapes of what was contracted: an index may have size 1 in them although it is larger in other operands"""
    from .c06 import lists, update
    name = "the size of a result comes from the operands of its step"
    m = next((x.a[0] for x in subterms(ts) if x.op == "take"), None)
    ls = lists(pl)[1]
    u = update(ls[m][1], m) if m in ls else None
    if u is None or u[2] is None:
        ctx.unk(R, name, loc, show(ts, 4))
        return
    x = u[2]
    if is_call(x, "parser.find_output_shape") and len(x.a[1]) == 3:
        ok = True if x.a[1][0] is ti and x.a[1][1] is ts else None if contains(x.a[1][1], lambda y: y is m) else False
    else:
        ok = None if contains(x, lambda y: y is m) else False
    ctx.put(ok, R, name, loc, "listed " + show(x, 4) + ", which does not depend on the shapes of the operands of the step: broadcast dimensions are listed with another operand's size")


def rev(t):
    """(reversed?, list) of a list possibly listed backwards"""
    r = False
    while t is not None:
        if is_call(t, "builtins.list", "builtins.tuple") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif is_call(t, "builtins.reversed"):
            r, t = not r, t.a[1][0]
        elif t.op == "idx" and t.a[1].op == "slice" and is_const(t.a[1].a[2], -1):
            r, t = not r, t.a[0]
        else:
            break
    return r, t


# ---------------------------------------------------------------- execution
def kws_of(e):
    return dict((k, v) for k, v in e.kws if k)


class Route:
    def __init__(self, ctx):
        self.pl = Plan(ctx)
        self.x = Exec(ctx, self.pl)
        self.td = self.x.calls("contract._tensordot")
        self.tr = self.x.calls("contract._transpose")
        if len(self.td) != 1:
            raise Undecided(f"{len(self.td)} tensordot calls in the executor")

    def kept(self, t):
        """the sequence of kept characters of left+right: returns 'LR' / 'RL' / None for a string term"""
        x = self.x
        if t.op == "join" and is_const(t.a[0], "") and len(t.a) == 2:
            t = t.a[1]
        if t.op == "add":
            parts = [self.kept(y) for y in t.a]
            if all(parts):
                return "".join(parts)
        if t.op == "comp" and len(t.a[2]) == 1 and t.a[1] is mk("elem", t.a[2][0], 0):
            it, e = t.a[2][0], t.a[1]
            src = it.a if it.op == "add" else (it,)
            names = [x.split(s) for s in src]
            if any(n not in ("left", "right") for n in names):
                return None
            # the filter keeps exactly the characters that are not summed
            for cls, want in (("contracted", False), ("left free", True), ("right free", True)):
                present = {"contracted": {"left", "right"}, "left free": {"left"}, "right free": {"right"}}[cls]
                if not (present & set(names)):
                    continue

                def atom(u):
                    if x.role(u) == "removed":
                        return lambda env: cls == "contracted"
                    n = x.split(u)
                    if n == "result":
                        return lambda env: cls != "contracted"
                    if n in ("left", "right"):
                        return lambda env: n in present
                    return None

                def leaf(u, env):
                    if u.op == "cmp" and u.a[0] == "in" and u.a[1] is e:
                        return member(u.a[2], None, atom)
                    return None
                if truth_of(t.a[3], None, leaf) != want:
                    return "wrong filter"
            return "".join({"left": "L", "right": "R"}[n] for n in names)
        return None

    def opnds(self):
        """+1: operands in record order, -1: reversed"""
        e = self.td[0]
        xs = [a for a in e.args]
        if len(xs) == 1 and xs[0].op == "star":
            o, b = self.seq(xs[0].a[0])
            return o
        if len(xs) >= 2:
            a, b = xs[0], xs[1]
            for u, w, s in ((a, b, 1), (b, a, -1)):
                if u.op == "idx" and w.op == "idx" and u.a[0] is w.a[0] and is_const(u.a[1], 0) and is_const(w.a[1], 1, -1):
                    o, _ = self.seq(u.a[0])
                    return None if o is None else o * s
        return None

    def seq(self, t):
        s = 1
        while True:
            if is_call(t, "builtins.list", "builtins.tuple") and len(t.a[1]) == 1:
                t = t.a[1][0]
            elif is_call(t, "builtins.reversed"):
                s, t = -s, t.a[1][0]
            elif t.op == "idx" and t.a[1].op == "slice" and is_const(t.a[1].a[2], -1):
                s, t = -s, t.a[0]
            else:
                break
        if t.op == "comp" and t.a[1].op == "take" and len(t.a[2]) == 1 and self.x.role(strip(t.a[2][0], "builtins.tuple", "builtins.list")) == "inds":
            return s, t
        return None, None

    # axes
    def axes(self, t):
        """[(first, second, source, problem)] alternatives with the literal under which they are used"""
        out = []
        for lits, v in cases(t):
            out.append((lits, self.axes1(v)))
        return out

    def axes1(self, v):
        v = self.unwrap(v)
        if v.op in ("tup", "lst") and len(v.a) == 2:
            a, b = self.unwrap(v.a[0]), self.unwrap(v.a[1])
            if a.op in ("tup", "lst") and not a.a and b.op in ("tup", "lst") and not b.a:
                return "empty"
            sa = sb = False
            if is_call(a, "builtins.sorted", "builtins.reversed"):
                sa, a = a.a[0].a[0], self.unwrap(a.a[1][0])
            if is_call(b, "builtins.sorted", "builtins.reversed"):
                sb, b = b.a[0].a[0], self.unwrap(b.a[1][0])
            pa, pb = self.poslist(a), self.poslist(b)
            if pa is None or pb is None:
                # components of one zipped list of pairs
                if a.op == "idx" and b.op == "idx" and a.a[0] is b.a[0]:
                    z = self.axes1(a.a[0])
                    if isinstance(z, tuple) and is_const(a.a[1], 0) and is_const(b.a[1], 1):
                        return z
                raise Undecided("axes " + show(v, 6))
            if sa != sb or "sorted" in str(sa):
                if sa or sb:
                    return "unpaired"
            if pa[1] is not pb[1]:
                return "different sources"
            return pa[0], pb[0], pa[1]
        if is_call(v, "builtins.zip") and len(v.a[1]) == 1 and v.a[1][0].op == "star":
            p = self.pairs(v.a[1][0].a[0])
            return p
        raise Undecided("axes " + show(v, 6))

    def unwrap(self, v):
        while is_call(v, "builtins.tuple", "builtins.list") and len(v.a[1]) == 1 and v.a[1][0].op != "star":
            v = v.a[1][0]
        if v.op == "comp" and v.a[0] in ("list", "tuple", "gen") and len(v.a[2]) == 1 and v.a[3] is TRUE and v.a[1] is mk("elem", v.a[2][0], 0):
            return self.unwrap(v.a[2][0])
        return v

    def pairs(self, v):
        v = self.unwrap(v)
        while is_call(v, "builtins.sorted", "builtins.reversed", "builtins.list", "builtins.tuple") and v.a[1]:
            v = v.a[1][0]
        if is_call(v, "builtins.zip") and len(v.a[1]) == 2:
            a, b = (self.unwrap(x) for x in v.a[1])
            if is_call(a, "builtins.sorted") or is_call(b, "builtins.sorted"):
                return "unpaired"
            pa, pb = self.poslist(a), self.poslist(b)
            if pa is None or pb is None:
                raise Undecided("axes pairs " + show(v, 6))
            if pa[1] is not pb[1]:
                return "different sources"
            return pa[0], pb[0], pa[1]
        if v.op == "comp" and v.a[1].op in ("tup", "lst") and len(v.a[1].a) == 2 and len(v.a[2]) == 1 and v.a[3] is TRUE:
            e = mk("elem", v.a[2][0], 0)
            a, b = (self.pos1(x, e) for x in v.a[1].a)
            if a and b:
                return a, b, v.a[2][0]
        raise Undecided("axes pairs " + show(v, 6))

    def pos1(self, t, e):
        b = mcall(t, "find", "index")
        if b is not None and len(t.a[1]) == 1 and t.a[1][0] is e:
            return self.x.split(b)
        return None

    def poslist(self, a):
        if a.op == "comp" and len(a.a[2]) == 1 and a.a[3] is TRUE:
            p = self.pos1(a.a[1], mk("elem", a.a[2][0], 0))
            if p:
                return p, a.a[2][0]
        return None


def r_options(ctx):
    R = "when the route is taken"
    q = Route(ctx)
    e = q.td[0]
    kwp = q.x.p.get("kwargs")
    for f, what in ((None, "the eligibility flag"),):
        def leaf(c, env):
            if q.x.role(c) == "blas":
                return False
            if c.op == "cmp" and c.a[0] == "is" and q.x.role(c.a[1]) == "blas" and is_const(c.a[2], False):
                return True
            return None
        reach = reachable(e.facts, leaf)
        ctx.put(None if reach is None else not reach, R, "a step not marked as eligible is left to einsum", e.loc, "tensordot is reached although the step is not eligible")

    def leaf2(c, env):
        if c is kwp:
            return True
        if is_call(c, "builtins.bool", "builtins.len") and c.a[1][0] is kwp:
            return True
        return None
    if kwp is None:
        ctx.unk(R, "einsum options exclude the route", e.loc, "no keyword options")
    else:
        reach = reachable(e.facts, leaf2)
        passed = any(k is None and v is kwp for k, v in e.kws)
        if reach:
            ctx.bad(R, "einsum options exclude the route", e.loc,
                    "with einsum options given (dtype, casting, order) tensordot is " + ("handed options it does not know" if passed else "used and the options are dropped"))
        else:
            ctx.put(None if reach is None else True, R, "einsum options exclude the route", e.loc, "unclear conditions")


def reachable(facts, leaf):
    """False if some dominating condition is false under leaf; True if all are true or about something else; None unclear"""
    unk = False
    for f in facts:
        try:
            if not truth_of(f, None, leaf):
                return False
        except Undecided:
            if not_about(f, leaf):
                continue
            unk = True
    return None if unk else True


def not_about(f, leaf):
    """the condition can be true whatever the remaining conditions are: try all values of its other atoms"""
    from .common import atoms_of
    ats = [a for a in atoms_of(f) if leaf(a, None) is None]
    if len(ats) > 8:
        return False
    for vals in itertools.product((True, False), repeat=len(ats)):
        env = dict(zip(ats, vals))
        try:
            if truth_of(f, None, lambda c, v: leaf(c, v) if leaf(c, v) is not None else env.get(c)):
                return True
        except Undecided:
            return False
    return False


def r_axes(ctx):
    R = "axes"
    q = Route(ctx)
    e = q.td[0]
    o = q.opnds()
    k = kws_of(e)
    ax = k.get("axes") or (e.args[2] if len(e.args) > 2 else None)
    if ax is None:
        ctx.bad(R, "tensordot: axes given", e.loc, "tensordot is called without axes")
        return
    ctx.put(None if o is None else True, R, "tensordot: operands of the step", e.loc, "operands are " + ", ".join(show(a, 4) for a in e.args))
    for lits, z in q.axes(ax):
        if z == "empty":
            # only when nothing is summed
            hit = False
            try:
                for n in (1, 2, 3):
                    def val(u, n=n):
                        if is_call(u, "builtins.len") and q.x.role(strip(u.a[1][0])) == "removed":
                            return n
                        if q.x.role(strip(u)) == "removed":
                            return 1
                        return None
                    hit = hit or all(truth_of(c, None, numleaf(val)) == p for c, p in lits)
            except Undecided:
                hit = None
            ctx.put(None if hit is None else not hit, R, "no axes only if nothing is summed", e.loc, "the axes are empty although indices are summed")
            continue
        if z in ("unpaired", "different sources"):
            ctx.bad(R, "positions of one index are paired", e.loc, "the positions in the two operands are ordered separately, so different indices may be paired"
                    if z == "unpaired" else "the positions in the two operands belong to different indices")
            continue
        a, b, src = z
        if o is None:
            ctx.unk(R, "positions of one index are paired", e.loc, "")
            continue
        want = ("left", "right") if o == 1 else ("right", "left")
        ctx.put((a, b) == want, R, "positions of one index are paired", e.loc, f"the first operand's axes are positions in the {a} term, the second's in the {b} term")
        src = strip(src)
        if q.x.role(src) == "removed":
            ctx.ok(R, "every summed index is an axis", e.loc)
        else:
            def atom(cls):
                def f(u):
                    if q.x.role(u) == "removed":
                        return lambda env: cls == "contracted"
                    n = q.x.split(u)
                    if n in ("left", "right", "result"):
                        return lambda env: {"contracted": n != "result", "lf": n != "right", "rf": n != "left"}[cls]
                    return None
                return f
            try:
                okk = member(src, None, atom("contracted")) and not member(src, None, atom("lf")) and not member(src, None, atom("rf"))
            except Undecided as ex:
                ctx.unk(R, "every summed index is an axis", e.loc, str(ex))
                continue
            ctx.put(okk, R, "every summed index is an axis", e.loc, "the axes run over " + show(src, 4) + ", not over the summed indices")


def r_route(ctx):
    """the kernel chosen per kind of step"""
    R = "kernel chosen"
    q = Route(ctx)
    td, ei = q.td[0], q.x.calls("contract._einsum")
    kwp = q.x.p.get("kwargs")

    def leaf_for(flag, opts, has):
        def val(u):
            if q.x.role(u) == "blas":
                return flag
            if u is kwp:
                return ("dtype",) if opts else ()
            if is_call(u, "backends.dispatch.has_einsum"):
                return has
            return None

        def leaf(c, env):
            try:
                return bool(pointeval(c, val))
            except Undecided:
                return None
        return leaf
    for flag, opts, has, want, why in (
            ("GEMM", False, True, "tensordot", "a step that is a matrix product, no option given"),
            ("GEMM", False, False, "tensordot", "a step that is a matrix product, on a backend that has no einsum"),
            ("OUTER/EINSUM", False, False, "tensordot", "an outer product on a backend that has no einsum"),
            ("TDOT", False, True, "tensordot", "a step that is a tensor contraction, no option given"),
            (False, False, True, "einsum", "a step that is no tensor contraction"),
            ("GEMM", True, True, "einsum", "a matrix product with an einsum option"),
            ("OUTER/EINSUM", True, True, "einsum", "an outer product with an einsum option")):
        lf = leaf_for(flag, opts, has)
        a = reachable(td.facts, lf)
        bs = [reachable(e.facts, lf) for e in ei]
        b = None if not bs or any(x is None for x in bs) else any(bs)
        # exactly one of the two kernels remains
        got = "tensordot" if a is True and b is False else "einsum" if a is False and b is True else None
        ctx.put(None if got is None else got == want, R, why, td.loc, f"{why}: {got} is used" if got else f"{why}: tensordot {a}, einsum {b}")


def r_axpoints(ctx):
    """the axes at single steps"""
    R = "axes of single steps"
    q = Route(ctx)
    e = q.td[0]
    k = kws_of(e)
    ax = k.get("axes") or (e.args[2] if len(e.args) > 2 else None)
    o = q.opnds()
    if ax is None or o is None:
        ctx.unk(R, "axes", e.loc, "axes or operands not recognised")
        return
    for le, ri, rm in (("ab", "bc", "b"), ("ab", "cd", ""), ("", "ab", ""), ("abc", "cbd", "bc"), ("abc", "abc", "abc"), ("cab", "abe", "ab"), ("xayb", "bzaw", "ab"), ("a", "a", "a")):
        def val(u, le=le, ri=ri, rm=rm):
            if q.x.role(u) == "removed":
                return frozenset(rm)
            n = q.x.split(u)
            if n:
                return {"left": le, "right": ri, "result": "".join(c for c in le + ri if c not in rm)}.get(n)
            return None
        name = f"{le},{ri} summing {rm or 'nothing'}"
        try:
            v = pointeval(ax, val)
        except Fails as ex:
            ctx.bad(R, name, e.loc, "the axes cannot be formed: " + str(ex))
            continue
        except Undecided as ex:
            ctx.unk(R, name, e.loc, str(ex))
            continue
        if o != 1 and isinstance(v, tuple) and len(v) == 2:
            v = v[::-1]
        ok = isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, tuple) for x in v) and len(v[0]) == len(v[1]) and \
            sorted(zip(*v)) == sorted((le.index(c), ri.index(c)) for c in rm)
        ctx.put(ok, R, name, e.loc, f"the axes are {v!r}")


def r_layout(ctx):
    R = "result layout"
    q = Route(ctx)
    x = q.x
    tdt = None
    apps = [e for e in x.r.events if e.kind == "mutate" and e.op == "append" and e.args and contains(e.args[0], lambda u: is_call(u, "contract._tensordot"))]
    if len(apps) != 1:
        raise Undecided(f"{len(apps)} uses of the tensordot result")
    val = apps[0].args[0]
    n = 0
    for lits, v in cases(val):
        if not contains(v, lambda u: is_call(u, "contract._tensordot")):
            continue
        n += 1
        if is_call(v, "contract._tensordot"):
            # used as it is: only if the layouts agree
            ok = None
            for c, p in lits:
                same = layout_equal(q, c, p)
                if same is not None:
                    ok = same if ok is None else ok or same
            ctx.put(ok if ok else (False if ok is False else _uncond(q, lits)), R, "unpermuted result only if the order is the requested one", apps[0].loc,
                    "the result is used without permuting it although the order may differ from the requested one")
        elif is_call(v, "contract._transpose"):
            check_perm(ctx, R, q, v, apps[0])
        else:
            ctx.unk(R, "layout", apps[0].loc, show(v, 4))
    if not n:
        ctx.unk(R, "layout", apps[0].loc, "no tensordot alternative")


def _uncond(q, lits):
    """no gate mentions the layout at all: the permutation is never needed or never done"""
    return False if not any(contains(c, lambda u: q.x.split(u) == "result") for c, p in lits) else None


def layout_equal(q, c, p):
    """does the literal (c is p) imply that the tensordot layout equals the requested one?"""
    def leafdiff(u, env):
        if u.op == "cmp" and u.a[0] == "eq":
            ks = {q.kept(u.a[1]) or q.x.split(u.a[1]), q.kept(u.a[2]) or q.x.split(u.a[2])}
            if "result" in ks and len(ks) == 2:
                if "LR" in ks or ("RL" in ks and q.opnds() == -1):
                    return False
        return None
    if not contains(c, lambda u: q.x.split(u) == "result"):
        return None
    from .common import atoms_of
    ats = [a for a in atoms_of(c) if leafdiff(a, None) is None]
    if len(ats) > 8:
        return None
    for vals in itertools.product((True, False), repeat=len(ats)):
        env = dict(zip(ats, vals))
        try:
            if truth_of(c, None, lambda u, v: leafdiff(u, v) if leafdiff(u, v) is not None else env.get(u)) == p:
                return False
        except Undecided:
            return None
    return True


def check_perm(ctx, R, q, v, app):
    args = list(v.a[1])
    kws = dict(v.a[2])
    ax = kws.get("axes") or (args[1] if len(args) > 1 else None)
    ax = q.unwrap(ax) if ax is not None else None
    ok, msg = None, show(ax, 5) if ax is not None else "none"
    if ax is not None and ax.op == "comp" and len(ax.a[2]) == 1 and ax.a[3] is TRUE:
        e = mk("elem", ax.a[2][0], 0)
        b = mcall(ax.a[1], "index", "find")
        if b is not None and ax.a[1].a[1] and ax.a[1].a[1][0] is e:
            src = ax.a[2][0]
            ks, kb = (q.x.split(src) or q.kept(src)), (q.kept(b) or q.x.split(b))
            o = q.opnds()
            lay = "LR" if o == 1 else "RL" if o == -1 else None
            if lay and ks and kb:
                ok = ks == "result" and kb == lay
                nm = {"LR": "the left then the right operand's kept indices", "RL": "the right then the left operand's kept indices", "result": "the requested order"}
                msg = f"entry k of the permutation is the place of index k of {nm.get(ks, ks)} within {nm.get(kb, kb)}"
    ctx.put(ok, R, "permutation to the requested order", app.loc, msg)
    t = args[0] if args else None
    ctx.put(True if t is not None and is_call(t, "contract._tensordot") else None, R, "the permuted value is the tensordot result", app.loc, "permuted: " + (show(t, 3) if t is not None else ""))


def r_wrappers(ctx):
    """_tensordot/_transpose/_einsum hand the operands on unchanged to the backend function of the same name"""
    R = "backend call"
    for name, want in (("_tensordot", 2), ("_transpose", 1)):
        fq = "contract." + name
        if not ctx.has(fq):
            ctx.unk(R, name, "", "not in the source")
            continue
        r = ctx.run(fq, opaque=frozenset({"backends.dispatch.get_func"}))
        fn = ctx.p.fn(fq)
        calls = [e for e in r.events if e.kind == "call" and contains(e.callee, lambda u: is_call(u, "backends.dispatch.get_func")) and not is_call(
            e.callee.a[0] if e.callee.op == "attr" else e.callee, "x")]
        calls = [e for e in calls if is_call(e.callee, "backends.dispatch.get_func")]
        if len(calls) != 1:
            ctx.unk(R, name, fn.loc, f"{len(calls)} backend calls")
            continue
        e = calls[0]
        gf = e.callee
        ctx.put(is_const(gf.a[1][0], name[1:]) if gf.a[1] and gf.a[1][0].op == "const" else None, R, f"{name}: backend function", e.loc,
                "the backend function used is " + show(gf, 3))
        ps = [p for p in fn.params() if p not in ("backend",)]
        got = list(e.args) + [v for k, v in e.kws]
        okk = [strip(g, "builtins.tuple", "builtins.list") for g in got[:len(ps)]] == [r.params[p] for p in ps]
        ctx.put(True if okk else False if set(got) <= set(r.params.values()) else None, R, f"{name}: operands and axes", e.loc, "called with " + ", ".join(show(g, 3) for g in got))
        bk = gf.a[1][1] if len(gf.a[1]) > 1 else dict(gf.a[2]).get("backend")
        ctx.put(True if bk is r.params.get("backend") else False if bk is None or bk.op == "const" else None, R, f"{name}: backend", e.loc, "backend used: " + (show(bk, 3) if bk is not None else "default"))


def r_shapes(ctx):
    """the size recorded for an index of an intermediate is the largest one any operand of the step has for it"""
    R = "sizes of intermediates"
    r = ctx.run("parser.find_output_shape", public=True)
    fn = ctx.p.fn("parser.find_output_shape")
    inputs, shapes, output = (r.params[p] for p in fn.params()[:3])
    t = r.eng.freeze(r.ret, r.state)
    while is_call(t, "builtins.tuple", "builtins.list") and len(t.a[1]) == 1:
        t = t.a[1][0]
    if t.op != "comp" or len(t.a[2]) != 1:
        raise Undecided(show(t, 5))
    ctx.put(True if t.a[2][0] is output else None, R, "one size per result index, in order", fn.loc, "sizes are listed for " + show(t.a[2][0], 3))
    e = mk("elem", t.a[2][0], 0)
    v = t.a[1]
    agg = None
    if is_call(v, "builtins.max", "builtins.min") and len(v.a[1]) == 1:
        agg = v.a[0].a[0][9:]
        v = v.a[1][0]
    elif v.op == "idx" and v.a[0].op == "comp" and v.a[1].op == "const":
        agg, v = "one", v.a[0]
    elif is_call(v, "builtins.next") and v.a[1] and v.a[1][0].op == "comp":
        agg, v = "one", v.a[1][0]
    if v.op != "comp" or agg is None:
        raise Undecided(show(t, 6))
    ctx.put(agg == "max", R, "the largest size is kept", fn.loc, "an index may have size 1 in one operand and n in another; the size recorded is " + (
        "the smallest" if agg == "min" else "that of one operand"))
    x = v.a[1]
    ok = None
    if x.op == "idx":
        b = mcall(x.a[1], "find", "index")
        if b is not None and x.a[1].a[1] and x.a[1].a[1][0] is e and x.a[0].op == "elem" and b.op == "elem":
            ok = x.a[0].a[0] is shapes and b.a[0] is inputs
    ctx.put(ok, R, "each size is read at the index's own place", fn.loc, show(x, 5))

    def leafv(pos):
        def val(u):
            b = mcall(u, "find", "index")
            if b is not None:
                return pos
            return None

        def more(c, env):
            if c.op == "cmp" and c.a[0] == "in" and c.a[1] is e:
                return pos >= 0
            return None
        return numleaf(val, more)
    for pos, want in ((-1, False), (0, True), (2, True)):
        try:
            got = truth_of(v.a[3], None, leafv(pos))
        except Undecided as ex:
            ctx.unk(R, f"operands considered ({pos})", fn.loc, str(ex))
            continue
        ctx.put(got == want, R, "operands without the index are skipped" if not want else f"an operand having the index in place {pos} is considered", fn.loc,
                "wrong set of operands: condition " + show(v.a[3], 4))


RULES = [("eligibility", r_eligible), ("what the test is given", r_inputs), ("when the route is taken", r_options), ("axes", r_axes), ("kernel chosen", r_route), ("axes of single steps", r_axpoints), ("result layout", r_layout),
         ("backend call", r_wrappers), ("sizes of intermediates", r_shapes)]


def check(ctx):
    for n, f in RULES:
        ctx.rule(n, f)
